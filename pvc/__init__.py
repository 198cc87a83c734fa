"""PyVC: contract verification of the real arboris code by exact symbolic execution."""
