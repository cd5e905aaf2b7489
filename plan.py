# Which scenarios decide which property, and how many runs of each the quick tier makes.
# (scenario[:variant], runs).  The thorough tier multiplies the counts by THOROUGH.
THOROUGH = 40

PLAN = {
    "P01": [("msg", 24000), ("msglong", 400), ("msgmarathon", 8)],
    "P02": [("timer", 22500), ("timerres", 7500)],
    "P03": [("link", 20000), ("linkres", 10000)],
    "P04": [("msgthrow", 12000), ("timerthrow", 12000), ("linkthrow", 10000)],
    "P05": [("mbclient", 8000), ("mbclientfault", 9600), ("mbclientlong", 192), ("mbclientlongfault", 192)],
    "P06": [("mbclient", 8000), ("mbclientfault", 8000), ("mbclientlong", 192), ("mbclientlongfault", 192)],
    "P07": [("mbclientfault", 13600), ("mbclientlongfault", 340)],
    "P08": [("mbserver", 8000), ("mbserverfault", 4800), ("mbserverflood", 960), ("mbserverchurn", 480), ("mbserverlong", 160)],
    "P09": [("mbserverfault", 8000), ("mbserverflood", 3200), ("mbserverchurn", 480), ("mbserverlong", 96)],
    "P10": [("ua", 2500), ("uafault", 4500)],
    "P11": [("ua", 1500), ("uafault", 3500), ("uachurn", 1500), ("ualong", 100), ("uamarathon", 8)],
    "P12": [("ua", 2500), ("uafault", 4000), ("uachurn", 1000), ("uasess", 600), ("ualong", 100)],
    "P13": [("ua", 2000), ("uafault", 2500), ("uachurn", 800), ("uaflood", 500), ("uasess", 600), ("ualong", 100), ("uamarathon", 8)],
    "P14": [("uafuzz", 4500), ("uafault", 1000), ("mbserverfault", 1500), ("mbclientfault", 1500), ("app", 800)],
    "P15": [("app", 8000), ("appfault", 8000)],
    "P16": [("linkres", 10000), ("timerres", 10000), ("mbserverfault", 3000), ("uafault", 2000), ("mbserverchurn", 300), ("uaconnfault", 2000)],
    "P17": [("uaconn", 10800), ("uaconnfault", 9000)],
    "P18": [("log", 24000)],
}

# What every run executes as real code and what the simulator stands in for.
REAL = [
    "every translation unit of /repo/src (reactor, logger, Modbus, OPC UA, controller, deployer), compiled from the working tree",
]
STUB = [
    "kernel: sockets/TCP, epoll, eventfd, timerfd, clocks, fcntl, close, read, write (simulated, sim/simos.cpp)",
    "threads, mutexes, condition variables, sleeps (fibers on a virtual clock, sim/sim.cpp)",
    "remote peers: Modbus devices and clients, OPC UA clients (harness fibers, scen/)",
    "stdout/stderr of the logger (discarded; kept and examined in the log scenario)",
]

NOTES = {}
