/* -*- Mode: C -*- */

#ifndef _DLITE_CONFIG_H
#define _DLITE_CONFIG_H

#ifndef SKIP_UTILS_CONFIG_H
#include "utils/config.h"
#endif
//#include "config-paths.h"

/* Macro magic that expands a defined but empty variable to 1.
 * `VAL` must be empty or a non-negative integer. */
#define DO_ISEMPTY(VAL)  1 ## VAL
#define ISEMPTY(VAL)     DO_ISEMPTY(VAL)


/* dlite version */
#define dlite_VERSION "0.5.45"
#define dlite_VERSION_MAJOR 0
#define dlite_VERSION_MINOR 5
#define dlite_VERSION_PATCH 45

/* Require all version components to be defined */
#if !defined(dlite_VERSION_MAJOR) || ISEMPTY(dlite_VERSION_MAJOR) == 1 || \
    !defined(dlite_VERSION_MINOR) || ISEMPTY(dlite_VERSION_MINOR) == 1 || \
    !defined(dlite_VERSION_PATCH) || ISEMPTY(dlite_VERSION_PATCH) == 1
# error "All version components must be defined in main CMakeLists.txt"
#endif

#define DLITE_CONFIG_VARS  "dlite_VERSION;DLITE_ROOT;DLITE_PKG_ROOT;DLITE_INCLUDE_DIRS;DLITE_LIBRARY_DIR;DLITE_RUNTIME_DIR;DLITE_TEMPLATE_DIRS;DLITE_STORAGE_PLUGIN_DIRS;DLITE_MAPPING_PLUGIN_DIRS;HDF5_LIBRARIES;Python3_LIBRARIES;DLITE_PYTHON_STORAGE_PLUGIN_DIRS;DLITE_PYTHON_MAPPING_PLUGIN_DIRS;DLITE_PYTHON_PROTOCOL_PLUGIN_DIRS"

/* Installation root */
#ifndef DLITE_ROOT
#define DLITE_ROOT             "/repo/_build/_install"
#endif

#ifndef DLITE_PKG_ROOT
#define DLITE_PKG_ROOT         "/opt/dlite-venv/lib/python3.12/site-packages/dlite"
#endif

/* Installation directories relative to DLITE_ROOT */
#define DLITE_INCLUDE_DIRS                "include/dlite"
#define DLITE_LIBRARY_DIR                 "lib"
#define DLITE_RUNTIME_DIR                 "bin"
#define DLITE_PYTHONPATH                  "/opt/dlite-venv/lib/python3.12/site-packages"

/* Installation directories relative to DLITE_PKG_ROOT */
#define DLITE_STORAGE_PLUGIN_DIRS         "share/dlite/storage-plugins"
#define DLITE_MAPPING_PLUGIN_DIRS         "share/dlite/mapping-plugins"
#define DLITE_PYTHON_STORAGE_PLUGIN_DIRS  "share/dlite/python-storage-plugins"
#define DLITE_PYTHON_MAPPING_PLUGIN_DIRS  "share/dlite/python-mapping-plugins"
#define DLITE_PYTHON_PROTOCOL_PLUGIN_DIRS "share/dlite/python-protocol-plugins"
#define DLITE_TEMPLATE_DIRS               "share/dlite/templates"
#define DLITE_STORAGES                    "share/dlite/storages"


/* built-in storage plugins */
#define WITH_HDF5

/* use redland triplestore */
#define HAVE_REDLAND
#define HAVE_RASQAL
#define HAVE_RAPTOR

/* available bindings */
#define WITH_PYTHON

/* Get rid of some annoying MSVC warnings */
#ifdef _MSC_VER
 /* do not warn about fully valid use of alingof() */
 #pragma warning(disable:4116)
#endif

#endif /* _DLITE_CONFIG_H */
