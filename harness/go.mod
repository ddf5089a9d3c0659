module harness

go 1.23

require github.com/intel/forGoParallel v0.0.0

replace github.com/intel/forGoParallel => /repo
