static const char config_html[] = "<html></html>";
