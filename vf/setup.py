#!/usr/bin/env python3
"""builds the front end tool"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import front
print(front.tool())
