#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vk import core
from vk.checks import CHECKS
core.main(CHECKS)
