# One executable per harness source. A line "// LINK: <targets>" in the source names what it is linked to.
file(GLOB vh_sources CONFIGURE_DEPENDS "${VH_DIR}/cpp/*.cpp")
foreach(vh_source ${vh_sources})
    get_filename_component(vh_name "${vh_source}" NAME_WE)
    file(STRINGS "${vh_source}" vh_line REGEX "^// LINK:" LIMIT_COUNT 1)
    string(REPLACE "// LINK:" "" vh_line "${vh_line}")
    separate_arguments(vh_libraries UNIX_COMMAND "${vh_line}")
    add_executable(vh_${vh_name} EXCLUDE_FROM_ALL "${vh_source}")
    target_include_directories(vh_${vh_name} PRIVATE "${VH_DIR}/cpp")
    target_link_libraries(vh_${vh_name} PRIVATE ${vh_libraries})
    set_target_properties(vh_${vh_name} PROPERTIES
        UNITY_BUILD OFF RUNTIME_OUTPUT_DIRECTORY "${CMAKE_BINARY_DIR}/vh")
endforeach()

# Those of the modelling framework that need the data model, too: on top of the stand-in for HPX
foreach(vh_source ${vh_sources})
    file(STRINGS "${vh_source}" vh_line REGEX "^// FRAMEWORK" LIMIT_COUNT 1)
    if(vh_line)
        get_filename_component(vh_name "${vh_source}" NAME_WE)
        set(vh_generated "${CMAKE_BINARY_DIR}/vh_generated")
        find_package(Python3 REQUIRED COMPONENTS Interpreter)
        execute_process(
            COMMAND "${Python3_EXECUTABLE}" "${VH_DIR}/hpx/generate.py" "${CMAKE_SOURCE_DIR}" "${vh_generated}"
            COMMAND_ERROR_IS_FATAL ANY)
        set(vh_framework "${CMAKE_SOURCE_DIR}/source/framework")
        target_include_directories(vh_${vh_name} BEFORE PRIVATE
            "${VH_DIR}/hpx/include" "${vh_generated}" "${VH_DIR}/hpx/cpp" "${vh_framework}"
            "${vh_framework}/core/include" "${vh_framework}/partitioned_array/include" "${vh_framework}/partitioned_route/include"
            "${vh_framework}/algorithm/include" "${vh_framework}/io/include" "${vh_framework}/model/include")
        target_compile_options(vh_${vh_name} PRIVATE -w)
        set_target_properties(vh_${vh_name} PROPERTIES CXX_STANDARD 23 ENABLE_EXPORTS ON)
        target_link_libraries(vh_${vh_name} PRIVATE ${CMAKE_DL_LIBS})
    endif()
endforeach()

# Those of the tools for translating data, whose sources are included
foreach(vh_source ${vh_sources})
    file(STRINGS "${vh_source}" vh_line REGEX "^// TRANSLATE" LIMIT_COUNT 1)
    if(vh_line)
        get_filename_component(vh_name "${vh_source}" NAME_WE)
        set(vh_data_model "${CMAKE_SOURCE_DIR}/source/data_model")
        target_include_directories(vh_${vh_name} BEFORE PRIVATE
            "${vh_data_model}" "${vh_data_model}/translate/include" "${vh_data_model}/utility/include")
    endif()
endforeach()
