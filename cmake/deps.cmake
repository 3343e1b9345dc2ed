# Injected with -DCMAKE_PROJECT_INCLUDE: builds *all* of verifypn's own sources
# (nothing left out), with stand-ins for ptrie and spot from /verif/standins.
foreach(t glpk-ext rapidxml-ext ptrie-ext spot-ext)
    if (NOT TARGET ${t})
        add_custom_target(${t})
    endif()
endforeach()
get_filename_component(VP_ROOT "${CMAKE_CURRENT_LIST_DIR}/.." ABSOLUTE)
include_directories(SYSTEM /usr/include/rapidxml)
include_directories(BEFORE SYSTEM ${VP_ROOT}/standins/ptrie ${VP_ROOT}/standins/spot)

function(vp_filter dir)
    get_property(subdirs DIRECTORY ${dir} PROPERTY SUBDIRECTORIES)
    foreach(s ${subdirs})
        vp_filter(${s})
    endforeach()
    get_property(targets DIRECTORY ${dir} PROPERTY BUILDSYSTEM_TARGETS)
    foreach(t ${targets})
        foreach(p LINK_LIBRARIES INTERFACE_LINK_LIBRARIES)
            get_target_property(libs ${t} ${p})
            if (libs)
                list(REMOVE_ITEM libs spot bddx)
                set_target_properties(${t} PROPERTIES ${p} "${libs}")
            endif()
        endforeach()
    endforeach()
endfunction()
function(vp_harness)
    if (EXISTS ${VP_ROOT}/harness/CMakeLists.txt)
        add_subdirectory(${VP_ROOT}/harness ${CMAKE_BINARY_DIR}/vp_harness)
    endif()
    vp_filter(${CMAKE_SOURCE_DIR})
endfunction()
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL vp_harness)
