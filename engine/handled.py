"""The properties whose obligations are generated and discharged deductively."""
PIDS = ["R%02d" % i for i in range(1, 17)] + ["F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10"]
