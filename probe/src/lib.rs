// Only its dependencies are used: vlib/compiles.py compiles programs against them.
