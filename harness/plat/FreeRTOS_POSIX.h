// stand-in: what the library needs of it is in the system headers
