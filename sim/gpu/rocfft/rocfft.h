#ifndef SIM_ROCFFT_H
#define SIM_ROCFFT_H
#include "../cuda_runtime_api.h"
extern "C" {
typedef enum { rocfft_status_success = 0, rocfft_status_failure, rocfft_status_invalid_arg_value, rocfft_status_invalid_dimensions, rocfft_status_invalid_array_type, rocfft_status_invalid_strides, rocfft_status_invalid_distance, rocfft_status_invalid_offset, rocfft_status_invalid_work_buffer } rocfft_status;
typedef enum { rocfft_transform_type_complex_forward, rocfft_transform_type_complex_inverse, rocfft_transform_type_real_forward, rocfft_transform_type_real_inverse } rocfft_transform_type;
typedef enum { rocfft_precision_single, rocfft_precision_double } rocfft_precision;
typedef enum { rocfft_placement_inplace, rocfft_placement_notinplace } rocfft_result_placement;
typedef enum { rocfft_array_type_complex_interleaved, rocfft_array_type_complex_planar, rocfft_array_type_real, rocfft_array_type_hermitian_interleaved, rocfft_array_type_hermitian_planar } rocfft_array_type;
typedef struct rocfft_plan_t *rocfft_plan; typedef struct rocfft_plan_description_t *rocfft_plan_description; typedef struct rocfft_execution_info_t *rocfft_execution_info;
rocfft_status rocfft_setup(void);
rocfft_status rocfft_cleanup(void);
rocfft_status rocfft_plan_create(rocfft_plan *p, rocfft_result_placement pl, rocfft_transform_type t, rocfft_precision pr, size_t dim, const size_t *len, size_t batch, const rocfft_plan_description d);
rocfft_status rocfft_plan_destroy(rocfft_plan p);
rocfft_status rocfft_plan_get_work_buffer_size(const rocfft_plan p, size_t *n);
rocfft_status rocfft_plan_description_create(rocfft_plan_description *d);
rocfft_status rocfft_plan_description_destroy(rocfft_plan_description d);
rocfft_status rocfft_plan_description_set_data_layout(rocfft_plan_description d, const rocfft_array_type in, const rocfft_array_type out, const size_t *ioff, const size_t *ooff, const size_t nis, const size_t *is, const size_t id, const size_t nos, const size_t *os, const size_t od);
rocfft_status rocfft_execute(const rocfft_plan p, void *in[], void *out[], rocfft_execution_info i);
rocfft_status rocfft_execution_info_create(rocfft_execution_info *i);
rocfft_status rocfft_execution_info_destroy(rocfft_execution_info i);
rocfft_status rocfft_execution_info_set_work_buffer(rocfft_execution_info i, void *b, const size_t n);
rocfft_status rocfft_execution_info_set_stream(rocfft_execution_info i, void *s);
}
#endif
