#!/usr/bin/env python3
"""setup: the checks need nothing but the standard library; verify that the
analyser loads the sources"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.prog import Program
p = Program()
print('modules', len(p.modules), 'functions', len(p.functions))
