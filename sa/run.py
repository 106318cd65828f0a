"""python3 -m sa.run <property id>"""
import sys

from . import report
from .proptable import PROPS
from .table import TABLE


def main():
    pid = sys.argv[1]
    fn, minimum = TABLE[pid]
    p = ([x for x in PROPS if x['id'] == pid] or
         [{'title': pid, 'tech': '', 'note': ''}])[0]
    sys.exit(report.main(pid, p['title'], p['tech'] + '. ' + p['note'], fn,
                         minimum))


if __name__ == '__main__':
    main()
