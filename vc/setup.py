"""builds the IR extraction tool and checks that the toolchain is usable (every check rebuilds what it needs itself)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
print(build.irdump())
