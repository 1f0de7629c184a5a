"""Builds the AST exporter (every check builds it again where it is missing)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
import vc
print(vc.exporter())
