/* no 32-bit stubs: everything is there */
