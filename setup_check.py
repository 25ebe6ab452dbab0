#!/usr/bin/env python3
"""Setup: nothing to build (pure Python); verify that the interpreter and the code under test are there."""
import os
import subprocess
import sys

os.chdir(os.path.dirname(os.path.abspath(__file__)))
os.makedirs('evidence', exist_ok=True)
os.makedirs('replays', exist_ok=True)
py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.call([py, '-c', 'import sys; sys.path.insert(0, "/repo"); import dfir_ntfs; print("setup ok", dfir_ntfs.__file__)'], env=env))
