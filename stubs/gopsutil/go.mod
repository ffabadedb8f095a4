module github.com/shirou/gopsutil/v3

go 1.18
