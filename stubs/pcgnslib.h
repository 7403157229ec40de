// declarations only: the parallel CGNS API is not installed; enough to type-check its callers
#pragma once
#include <cgnslib.h>
#include <mpi.h>
#undef CGNS_VERSION
#define CGNS_VERSION 4500
extern "C"
{
    int cgp_mpi_comm(MPI_Comm comm);
    int cgp_open(const char *filename, int mode, int *fn);
    int cgp_close(int fn);
    int cgp_coord_write(int fn, int B, int Z, DataType_t type, const char *name, int *C);
    int cgp_coord_write_data(int fn, int B, int Z, int C, const cgsize_t *rmin, const cgsize_t *rmax, const void *coords);
    int cgp_poly_section_write(int fn, int B, int Z, const char *name, ElementType_t type, cgsize_t start, cgsize_t end, cgsize_t maxoffset, int nbndry, int *S);
    int cgp_poly_elements_write_data(int fn, int B, int Z, int S, cgsize_t start, cgsize_t end, const cgsize_t *elements, const cgsize_t *offsets);
    int cgp_ptlist_write_data(int fn, cgsize_t rmin, cgsize_t rmax, const cgsize_t *points);
}
