#!/usr/bin/env python3
"""Build the AST extractor once; the checks build it themselves when it is missing."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import facts
print(facts.build_tool())
