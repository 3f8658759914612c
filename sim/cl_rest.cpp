// OpenCL functions the simulated device does not have: a run that calls one says nothing about the property.
#include "rt.h"
#define NO(N) extern "C" __attribute__((visibility("default"))) void* N() { sim::Harness h; sim::skip("the simulated device has no " #N); }
NO(clCloneKernel)
NO(clCompileProgram)
NO(clCreateBufferWithProperties)
NO(clCreateCommandQueueWithProperties)
NO(clCreateContextFromType)
NO(clCreateImage)
NO(clCreateImage2D)
NO(clCreateImage3D)
NO(clCreateImageWithProperties)
NO(clCreatePipe)
NO(clCreateProgramWithBinary)
NO(clCreateProgramWithBuiltInKernels)
NO(clCreateProgramWithIL)
NO(clCreateSampler)
NO(clCreateSamplerWithProperties)
NO(clCreateSubBuffer)
NO(clCreateSubDevices)
NO(clCreateUserEvent)
NO(clEnqueueCopyBufferRect)
NO(clEnqueueCopyBufferToImage)
NO(clEnqueueCopyImage)
NO(clEnqueueCopyImageToBuffer)
NO(clEnqueueFillImage)
NO(clEnqueueMapImage)
NO(clEnqueueNativeKernel)
NO(clEnqueueReadBufferRect)
NO(clEnqueueReadImage)
NO(clEnqueueSVMFree)
NO(clEnqueueSVMMap)
NO(clEnqueueSVMMemFill)
NO(clEnqueueSVMMemcpy)
NO(clEnqueueSVMMigrateMem)
NO(clEnqueueSVMUnmap)
NO(clEnqueueWriteBufferRect)
NO(clEnqueueWriteImage)
NO(clGetDeviceAndHostTimer)
NO(clGetHostTimer)
NO(clGetImageInfo)
NO(clGetKernelArgInfo)
NO(clGetKernelSubGroupInfo)
NO(clGetPipeInfo)
NO(clGetSamplerInfo)
NO(clGetSupportedImageFormats)
NO(clLinkProgram)
NO(clReleaseSampler)
NO(clRetainSampler)
NO(clSVMAlloc)
NO(clSVMFree)
NO(clSetContextDestructorCallback)
NO(clSetDefaultDeviceCommandQueue)
NO(clSetKernelArgSVMPointer)
NO(clSetKernelExecInfo)
NO(clSetMemObjectDestructorCallback)
NO(clSetProgramReleaseCallback)
NO(clSetProgramSpecializationConstant)
NO(clSetUserEventStatus)
