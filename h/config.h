#ifndef H_CONFIG_H
#define H_CONFIG_H
/* all options are passed on the command line by the checks' own build */
#endif
