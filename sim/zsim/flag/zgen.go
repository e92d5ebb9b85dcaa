package flag
