import sys, os; sys.path.insert(0,os.path.dirname(os.path.abspath(__file__))); import rf
S="spaces/product_space.py"
B="        for name in self.names:\n            disc_Q = discrete_space_disc.get(name, False)\n            if disc_Q:\n                self.discrete_spaces[name].make_discontinuous()\n"
Q=[[(S,B,"        for name, disc in discrete_space_disc.items():\n            if disc:\n                self.discrete_spaces[name].make_discontinuous()\n")],
 [(S,B,"        chosen = [n for n in self.names if discrete_space_disc.get(n)]\n        for name in chosen:\n            self.discrete_spaces[name].discontinuous = True\n")],
 [(S,B,"        for name, space in self.discrete_spaces.items():\n            if name in discrete_space_disc and discrete_space_disc[name]:\n                space.make_discontinuous()\n")]]
M=[[(S,"                self.discrete_spaces[name].make_discontinuous()\n","                pass\n")],
 [(S,"disc_Q = discrete_space_disc.get(name, False)","disc_Q = name in discrete_space_disc")],
 [(S,"disc_Q = discrete_space_disc.get(name, False)","disc_Q = any(discrete_space_disc.values())")],
 [(S,"                self.discrete_spaces[name].make_discontinuous()\n","                self.discrete_spaces[name].make_discontinuous()\n                break\n")],
]
rf.main(Q,M,("P07",),sys.argv[1] if len(sys.argv)>1 else "",workers=4)
