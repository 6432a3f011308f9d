import sys; sys.path.insert(0,'/tmp/sd')
from mk import mk
T="""            %s
        gmsh.model.occ.synchronize()

    def %s"""
mk("solids-grouped-before-sync","P16",[("mesh/discrete_domain.py","""                    gmsh.model.occ.addSurfaceLoop(loop_tags, tag)
                    gmsh.model.occ.addVolume([tag], tag)

        gmsh.model.occ.synchronize()
""","""                    gmsh.model.occ.addSurfaceLoop(loop_tags, tag)
                    gmsh.model.occ.addVolume([tag], tag)
"""),
("mesh/discrete_domain.py","""                gmsh.model.addPhysicalGroup(0, v_tags, physical_tag)
        gmsh.model.occ.synchronize()
""","""                gmsh.model.addPhysicalGroup(0, v_tags, physical_tag)
"""),
("mesh/discrete_domain.py","""                        tag_1d, numNodes, mesh_type, coef=coef
                    )
        gmsh.model.occ.synchronize()
""","""                        tag_1d, numNodes, mesh_type, coef=coef
                    )
"""),
("mesh/discrete_domain.py","""            gmsh.model.addPhysicalGroup(2, surface_tags, physical_tag)
        gmsh.model.occ.synchronize()
""","""            gmsh.model.addPhysicalGroup(2, surface_tags, physical_tag)
""")],
"""
from lib import *
import meshio
from topology.domain_market import build_box_3D
from mesh.discrete_domain import DiscreteDomain
box = np.array([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.], [0., 0., 1.], [1., 0., 1.], [1., 1., 1.], [0., 1., 1.]])
d = build_box_3D(box)
g = DiscreteDomain(dimension=3)
g.domain = d
with contextlib.redirect_stdout(io.StringIO()):
    g.generate_mesh({"lc": 1.0, "n_refinements": 0})
    g.write_mesh("box.msh")
    m = meshio.read("box.msh")
kinds = {c.type: len(c.data) for c in m.cells}
assert kinds.get("tetra", 0) > 0, "the written mesh has no solid cells: %s" % kinds
""","a three-dimensional domain: the solids are created after the last synchronisation that the physical groups see, and four sites that each look redundant cooperate","the physical group of the solids is declared before they exist, so the written mesh loses them")
mk("session-kept-for-refined","P16",[("mesh/discrete_domain.py","""        gmsh.write(file_name)
        gmsh.finalize()
""","""        gmsh.write(file_name)
        if self.mesh_arguments.get("n_refinements", 0) > 0:
            gmsh.clear()
        else:
            gmsh.finalize()
""")],
"""
from lib import *
import gmsh
from topology.domain_market import build_box_2D
from mesh.discrete_domain import DiscreteDomain
box = np.array([[0., 0., 0.], [1., 0., 0.], [1., 1., 0.], [0., 1., 0.]])
for n in (0, 1):
    g = DiscreteDomain(dimension=2)
    g.domain = build_box_2D(box)
    with contextlib.redirect_stdout(io.StringIO()):
        g.generate_mesh({"lc": 1.0, "n_refinements": n})
        g.write_mesh("b.msh")
    still = bool(gmsh.isInitialized())
    if still:
        gmsh.finalize()
    assert not still, "the session is still open after the mesh was written (refinements %d)" % n
""","a domain that was meshed with at least one refinement","writing a refined mesh clears the model but leaves the mesher session open")
