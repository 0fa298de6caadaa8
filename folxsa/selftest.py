"""Setup: the analyser needs only the system Python; check that it and the analysed sources can be loaded."""
import sys

from .project import Project
from .run import REPO


def main():
    p = Project(REPO)
    print(f'python {sys.version.split()[0]}; {len(p.modules)} modules of {REPO}/folx parsed')


if __name__ == '__main__':
    main()
