#!/usr/bin/env python3
"""Checks that the tools are there and that the engine passes its self-tests."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'work'), exist_ok=True)
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, 'work', 'target-core'), RUSTFLAGS='-Awarnings', CARGO_NET_OFFLINE='true')
sys.exit(subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=os.path.join(V, 'mc', 'core'), env=env).returncode)
