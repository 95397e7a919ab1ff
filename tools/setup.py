#!/usr/bin/env python3
"""setup_cmd: builds the verifier from pvc/pvc.cpp into build/pvc."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
print(check.build_pvc())
