package main

// property says where the generated checks of a property live and how they
// are built and run.
type property struct {
	pkg     string
	modes   []string // builds: plain, inst (schedule points), race
	shards  int      // processes per mode, quick
	deep    int      // processes per mode, thorough
	timeout int      // seconds per process, quick
}

var table = map[string]property{
	"C01": {pkg: "concurrent", modes: []string{"inst", "race"}},
	"C02": {pkg: "concurrent", modes: []string{"inst"}},
	"C03": {pkg: "circuitbreaker", modes: []string{"inst", "race"}},
	"C04": {pkg: "ratelimiter", modes: []string{"inst", "race"}},
	"C05": {pkg: "ratelimiter", modes: []string{"inst", "race"}},
	"C06": {pkg: "ratelimiter", modes: []string{"inst", "race"}},
	"C07": {pkg: "ratelimiter", modes: []string{"plain"}},
	"C08": {pkg: "ratelimiter", modes: []string{"plain"}},
	"C09": {pkg: "event", modes: []string{"inst", "race"}},
	"C10": {pkg: "event", modes: []string{"inst", "race"}},
	"C11": {pkg: "event", modes: []string{"plain", "inst", "race"}},
	"C12": {pkg: "schedule", modes: []string{"plain", "inst"}},
	"C13": {pkg: "schedule", modes: []string{"plain", "inst"}},
	"C14": {pkg: "schedule", modes: []string{"plain", "inst"}},
	"C15": {pkg: "schedule", modes: []string{"inst", "race"}},
	"C16": {pkg: "conf", modes: []string{"plain"}},
	"C17": {pkg: "conf", modes: []string{"plain"}},
	"C18": {pkg: "conf", modes: []string{"plain"}, shards: 6},
	"C19": {pkg: "confstore", modes: []string{"plain"}},
	"C20": {pkg: "confstore", modes: []string{"plain"}},
	"C21": {pkg: "confstore", modes: []string{"inst"}},
	"C22": {pkg: "confstore", modes: []string{"plain"}},
	"C23": {pkg: "confstore", modes: []string{"plain"}},
	"C24": {pkg: "confstore", modes: []string{"inst", "race"}},
	"C25": {pkg: "confs", modes: []string{"plain"}, shards: 4},
	"C26": {pkg: "confs", modes: []string{"plain"}, shards: 4},
	"C27": {pkg: "confs", modes: []string{"plain"}},
	"C28": {pkg: "confs", modes: []string{"plain"}, shards: 4},
	"C29": {pkg: "confs", modes: []string{"plain"}},
	"C30": {pkg: "util", modes: []string{"plain"}},
	"C31": {pkg: "util", modes: []string{"plain"}},
	"C32": {pkg: "skywalking", modes: []string{"plain"}, shards: 4},
	"C33": {pkg: "skywalking", modes: []string{"plain"}, shards: 4},
	"C34": {pkg: "skywalking", modes: []string{"plain"}, shards: 4},
}
