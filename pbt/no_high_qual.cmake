# Loaded through CMAKE_PROJECT_INCLUDE. src/CMakeLists.txt names src/high_qual_coeffs.h
# as a source of the library even when the converter that needs it is switched off, and
# this copy of the repository lacks it: drop it from the list while it does not exist.
function(add_library name)
  set(args ${ARGN})
  if(NOT EXISTS "${CMAKE_CURRENT_SOURCE_DIR}/high_qual_coeffs.h")
    list(REMOVE_ITEM args high_qual_coeffs.h)
  endif()
  _add_library(${name} ${args})
endfunction()
