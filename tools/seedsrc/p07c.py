import sys; sys.path.insert(0,'/verif/tools')
from mk import mk
mk("discontinuous-by-name","P07",[("spaces/product_space.py","            disc_Q = discrete_space_disc.get(name, False)\n","            disc_Q = name in discrete_space_disc\n")],'''
from lib import *

m = mesh(2, 0.5)
data = {n: (2, 1, "Lagrange", 1, m) for n in ("u", "p")}
s = ProductSpace(data)
s.make_subspaces_discontinuous({"u": False, "p": True})
assert not s.discrete_spaces["u"].discontinuous, "the field asked to stay continuous is discontinuous"
assert s.discrete_spaces["p"].discontinuous
''',"a table of requests that lists a field with the value False","the field that is asked to stay continuous is made discontinuous")
