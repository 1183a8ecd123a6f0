import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import engine
code = engine.main(sys.argv[1:])
sys.stdout.flush()
os._exit(code)
