import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_symex(); vlib.build_sym(); vlib.build_native()
print("ok")
