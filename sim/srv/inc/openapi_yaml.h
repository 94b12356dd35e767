static const char openapi_yaml[] = "openapi: 3.1.0\ninfo:\n  title: Colibri\n";
