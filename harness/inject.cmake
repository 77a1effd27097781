# Included by LUE's top-level project() call (CMAKE_PROJECT_INCLUDE). Adds the monitors' executables to
# the build graph of the tree under test, so that they are built against exactly that tree.
if(NOT VH_INJECTED)
    set(VH_INJECTED TRUE)
    set(VH_DIR "${CMAKE_CURRENT_LIST_DIR}")
    cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL include "${VH_DIR}/targets.cmake")
endif()
