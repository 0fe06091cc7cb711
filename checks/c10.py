import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import history  # noqa
from vlib import Check, main  # noqa

if __name__ == "__main__":
    main(Check("C10", "statistical", "backup trials and retrievability of overwritten contents after every restore of random histories; distinct = sets of differing files x options",
               min_eval=10), history.body)
