// The part of the CaribouLite API that the source block uses; h_sdr.cpp implements it.
#pragma once
#include <string>
#include <vector>
#include <complex>
#include <cstddef>
struct CaribouLiteFreqRange { double a, b; double fmin() const { return a; } double fmax() const { return b; } };
class CaribouLiteRadio { public: enum class RadioType { S1G, HiF };
    std::vector<CaribouLiteFreqRange> GetFrequencyRange(); float GetRxSampleRateMax(); float GetRxSampleRateMin(); size_t GetNativeMtuSample();
    void SetFrequency(float); void SetRxSampleRate(float); void SetAgc(bool); void SetRxGain(float); void StartReceiving(); void StopReceiving();
    int ReadSamples(std::complex<float>* p, size_t n); int ReadSamples(std::complex<short>* p, size_t n); };
class CaribouLite { public: enum SysVersion { eV1 };
    static bool DetectBoard(SysVersion* v, std::string& name, std::string& guid); static std::string GetSystemVersionStr(SysVersion v); static CaribouLite& GetInstance(bool); CaribouLiteRadio* GetRadioChannel(CaribouLiteRadio::RadioType t); };
