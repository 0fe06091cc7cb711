import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import history  # noqa
from vlib import Check, main  # noqa

if __name__ == "__main__":
    main(Check("C11", "statistical", "numbers, parents and automatic tags of every trial of random histories vs a reference model; distinct = tags seen",
               min_eval=10), history.body)
