"""names wrapped by mc/fault.hpp"""
import os, re
def names():
    t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "fault.hpp")).read()
    return re.findall(r"\bF[0M2]\(([A-Za-z0-9_]+)\)", t.split("#define F2(X)")[1])
