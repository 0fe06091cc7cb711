import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import history  # noqa
from vlib import Check, main  # noqa

if __name__ == "__main__":
    main(Check("C09", "statistical", "restored files compared with a model of every trial of random histories of edits, runs and restores; distinct = sets of restored contents x options",
               min_eval=30), history.body)
