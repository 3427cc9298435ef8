#!/usr/bin/env python3
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpcheck
sys.exit(vpcheck.main(sys.argv))
