// Appended to a scratch copy of backend.i: nothing needed at present.
