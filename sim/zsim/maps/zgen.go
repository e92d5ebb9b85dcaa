package maps
