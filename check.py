#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]   or   check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common
import eng_debug
import eng_history
import eng_phases
import eng_texts
import eng_tools

ENGINES = {"C01": eng_texts, "C02": eng_texts, "C03": eng_texts, "C04": eng_debug, "C05": eng_debug, "C06": eng_phases, "C07": eng_history}
ENGINES.update({p: eng_tools for p in eng_tools.CASES})

if __name__ == "__main__":
    sys.exit(common.main(ENGINES))
