"""Nothing is built in advance: checks that the tools are there."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
import symex.explore
assert os.path.exists('/opt/venv/bin/python')
print('z3', z3.get_version_string())
