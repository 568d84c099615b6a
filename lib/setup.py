"""setup_cmd: build the harness once (checks rebuild it from /repo's working tree when needed) and parse the specifications."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vrun import *

try:
    build()
except ToolError as e:
    print(e)
    sys.exit(2)
