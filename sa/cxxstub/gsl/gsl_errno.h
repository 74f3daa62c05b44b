#pragma once
extern "C" { typedef void gsl_error_handler_t(const char *, const char *, int, int); gsl_error_handler_t *gsl_set_error_handler_off(void); const char *gsl_strerror(int); }
