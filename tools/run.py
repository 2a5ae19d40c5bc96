#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough]: runs the check of one property."""
import os, sys, importlib
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE); sys.path.insert(0,os.path.join(os.path.dirname(HERE),"checks"))
def main():
    prop=sys.argv[1]
    if "--tier" in sys.argv: os.environ["VERIF_TIER"]=sys.argv[sys.argv.index("--tier")+1]
    m=importlib.import_module(prop.lower())
    import checklib
    c=checklib.Check(prop)
    m.run(c)
if __name__=="__main__": main()
