package exec
