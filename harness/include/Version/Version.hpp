static const char versionString[64] = "0.0.0";
