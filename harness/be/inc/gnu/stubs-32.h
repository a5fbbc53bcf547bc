/* nothing: the host's C headers are used for a 32-bit target */
