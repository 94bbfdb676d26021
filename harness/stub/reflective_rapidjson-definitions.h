// generated by newer versions of the build system only
