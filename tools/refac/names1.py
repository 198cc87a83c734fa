"""Private attributes under other names."""
RENAME = dict((k, k + '_value') for k in (
    '''_world _dof _ndof _driver _cndof _pos0 _nleffects _nb_steps _model _current_step 
_root _color_generator _wndof _shapes _gvel _gforce _add_frame _mass _impedance _flat 
_constraints _subframes _proximity _jacobian _controllers _arb_transforms _admittance 
_viscosity _sdist _joint _ground_node _dol _body _bodies _transforms _mu _h5_root 
_gvelocities _gpositions _dof_map _com_pos _record _pose _min _max _map _is_enabled 
_index _gravity_dtwist _eps _current_time _twist _timeline _save_transforms _save_state 
_save_model _palette _is_active _file _djacobian _up _protocol _mode _filename 
_collision_solver _init_dof''').split())
