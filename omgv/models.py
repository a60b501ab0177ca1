"""Vehicles of every model, and other real objects the checks share."""
import numpy as np
from . import env
import omgtools as omg
from omgtools.vehicles.holonomic import Holonomic
from omgtools.vehicles.holonomic1d import Holonomic1D
from omgtools.vehicles.holonomic3d import Holonomic3D
from omgtools.vehicles.holonomicorient import HolonomicOrient
from omgtools.vehicles.dubins import Dubins
from omgtools.vehicles.bicycle import Bicycle
from omgtools.vehicles.agv import AGV
from omgtools.vehicles.quadrotor import Quadrotor
from omgtools.vehicles.quadrotor3d import Quadrotor3D
from omgtools.vehicles.quadrotor3d_simple import SimpleQuadrotor3D
from omgtools.vehicles.trailer import Trailer
from omgtools.vehicles.tool import Tool
from omgtools.basics.shape import Circle, Square, Rectangle, Sphere, Cuboid, Cube, Polyhedron, RegularPolyhedron, Beam


def tool_bounds():
    return {'vmax': 0.5, 'vmin': -0.4, 'amax': 1., 'amin': -1.2, 'jmin': -30., 'jmax': 28.}


def vehicle(name, **kw):
    """a vehicle of each model, default construction unless told otherwise"""
    if name == 'Trailer':
        lead = kw.pop('lead_veh', None) or Dubins(Circle(0.2))
        return Trailer(lead_veh=lead, **kw)
    if name == 'Tool':
        kw.setdefault('tolerance', 0.01)
        kw.setdefault('bounds', tool_bounds())
        return Tool(kw.pop('tolerance'), **kw)
    if name == 'Holonomic3D':
        kw.setdefault('shapes', Sphere(0.1))
    cls = {c.__name__: c for c in (Holonomic, Holonomic1D, Holonomic3D, HolonomicOrient, Dubins, Bicycle, AGV, Quadrotor, Quadrotor3D,
                                   SimpleQuadrotor3D)}[name]
    return cls(**kw)


ALL = ['Holonomic', 'Holonomic1D', 'Holonomic3D', 'HolonomicOrient', 'Dubins', 'Bicycle', 'AGV', 'Quadrotor', 'Quadrotor3D',
       'SimpleQuadrotor3D', 'Trailer', 'Tool']
NSTATE = dict(Holonomic=2, Holonomic1D=1, Holonomic3D=3, HolonomicOrient=3, Dubins=3, Bicycle=4, AGV=4, Quadrotor=5, Quadrotor3D=8,
              SimpleQuadrotor3D=8, Trailer=6, Tool=3)
NINPUT = dict(Holonomic=2, Holonomic1D=1, Holonomic3D=3, HolonomicOrient=3, Dubins=2, Bicycle=2, AGV=2, Quadrotor=2, Quadrotor3D=3,
              SimpleQuadrotor3D=3, Trailer=2, Tool=3)
