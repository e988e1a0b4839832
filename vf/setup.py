#!/usr/bin/env python3
"""Builds the analysers."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from concurrent.futures import ThreadPoolExecutor
list(ThreadPoolExecutor(4).map(common.tool, common.TOOLS))
