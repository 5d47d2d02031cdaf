// no harness: the program to be linked brings its own main()
