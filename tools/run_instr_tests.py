import sys, os
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
sys.setrecursionlimit(20000)
import z3; sys.path.remove("/opt/veriftools/pyvenv/lib/python3.12/site-packages"); from sx import transform
transform.install()
import gemd
import pytest
sys.exit(pytest.main(['-q','-p','no:cacheprovider','/repo']+sys.argv[1:]))
