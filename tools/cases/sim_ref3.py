import sys
sys.path.insert(0, '/verif/tools/cases')
from sim_bugs2 import vec, SI, SRC
RULES = ['S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07', 'R01', 'R03']
CASES = [
 ('vec-guarded', '', [(SI,) + e for e in vec('if (std::find(active.begin(), active.end(), m) == active.end()) ')]),
]
