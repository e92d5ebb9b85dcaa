package log
