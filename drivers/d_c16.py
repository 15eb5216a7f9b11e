import sim_client
from sim_client import RULE, TRACE
run = sim_client.make("C16")
