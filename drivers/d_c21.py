import sim_sched
from sim_sched import RULE, TRACE
run = sim_sched.make("C21", graphs=False, heartbeat=6,tick=6,disconnect=3)
