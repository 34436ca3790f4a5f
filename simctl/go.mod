module simctl

go 1.18
