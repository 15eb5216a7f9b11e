import sim_sched
from sim_sched import RULE, TRACE
run = sim_sched.make("C11", graphs=None, function=9,expire=4)
