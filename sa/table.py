"""property -> (deciding function, obligations confirmed by hand)"""
from .props import netconf as nc
from .props import calc
from .props import config as cf
from .props import delta as dl
from .props import device as dv
from .props import download as dw
from .props import effects as ef
from .props import manage as mg
from .props import model as md
from .props import names as nm
from .props import parse as pr
from .props import rpc
from .props import running as rc
from .props import text as tx

TABLE = {
    'C01': (ef.c01, 1000),
    'C02': (ef.c02, 1000),
    'C03': (nc.c03, 40),
    'C04': (nc.c04, 40),
    'C05': (nc.c05, 6),
    'C06': (nc.c06, 60),
    'C07': (nc.c07, 20),
    'C08': (nc.c08, 10),
    'C09': (calc.c09, 30),
    'C10': (calc.c10, 30),
    'C11': (calc.c11, 30),
    'C12': (cf.c12, 40),
    'C13': (cf.c13, 15),
    'C14': (cf.c14, 20),
    'C15': (dl.c15, 8),
    'C16': (dv.c16, 30),
    'C17': (dw.c17, 15),
    'C18': (dw.c18, 40),
    'C19': (md.c19, 150),
    'C20': (md.c20, 60),
    'C21': (dv.c21, 200),
    'C22': (dv.c22, 6),
    'C23': (pr.c23, 40),
    'C24': (rc.c24, 60),
    'C25': (rc.c25, 40),
    'C26': (mg.c26, 30),
    'C27': (dl.c27, 60),
    'C28': (mg.c28, 8),
    'C29': (nm.c29, 300),
    'C30': (rc.c30, 60),
    'C31': (rc.c31, 40),
    'C32': (rpc.c32, 60),
    'C33': (tx.c33, 100),
}
