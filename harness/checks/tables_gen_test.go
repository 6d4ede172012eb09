// Code generated by tools/mktables.py; DO NOT EDIT.

package checks

import (
	"fmt"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/bacerr"
	"github.com/NubeDev/bacnet/btypes/ndpu"
	"github.com/NubeDev/bacnet/btypes/segmentation"
	"github.com/NubeDev/bacnet/btypes/units"
)

type named struct {
	name string
	got  uint32
	want uint32
	id   fmt.Stringer
}

var stdErrorClasses = []named{
	{"DeviceError", uint32(bacerr.DeviceError), 0, bacerr.DeviceError},
	{"ObjectError", uint32(bacerr.ObjectError), 1, bacerr.ObjectError},
	{"PropertyError", uint32(bacerr.PropertyError), 2, bacerr.PropertyError},
	{"ResourcesError", uint32(bacerr.ResourcesError), 3, bacerr.ResourcesError},
	{"SecurityError", uint32(bacerr.SecurityError), 4, bacerr.SecurityError},
	{"ServicesError", uint32(bacerr.ServicesError), 5, bacerr.ServicesError},
	{"VTError", uint32(bacerr.VTError), 6, bacerr.VTError},
	{"CommunicationError", uint32(bacerr.CommunicationError), 7, bacerr.CommunicationError},
}

var stdErrorCodes = []named{
	{"Other", uint32(bacerr.Other), 0, bacerr.Other},
	{"DeviceBusy", uint32(bacerr.DeviceBusy), 3, bacerr.DeviceBusy},
	{"ConfigurationInProgress", uint32(bacerr.ConfigurationInProgress), 2, bacerr.ConfigurationInProgress},
	{"OperationalProblem", uint32(bacerr.OperationalProblem), 25, bacerr.OperationalProblem},
	{"DynamicCreationNotSupported", uint32(bacerr.DynamicCreationNotSupported), 4, bacerr.DynamicCreationNotSupported},
	{"NoObjectsOfSpecifiedType", uint32(bacerr.NoObjectsOfSpecifiedType), 17, bacerr.NoObjectsOfSpecifiedType},
	{"ObjectDeletionNotPermitted", uint32(bacerr.ObjectDeletionNotPermitted), 23, bacerr.ObjectDeletionNotPermitted},
	{"ObjectIdentifierAlreadyExists", uint32(bacerr.ObjectIdentifierAlreadyExists), 24, bacerr.ObjectIdentifierAlreadyExists},
	{"ReadAccessDenied", uint32(bacerr.ReadAccessDenied), 27, bacerr.ReadAccessDenied},
	{"UnknownObject", uint32(bacerr.UnknownObject), 31, bacerr.UnknownObject},
	{"UnsupportedObjectType", uint32(bacerr.UnsupportedObjectType), 36, bacerr.UnsupportedObjectType},
	{"CharacterSetNotSupported", uint32(bacerr.CharacterSetNotSupported), 41, bacerr.CharacterSetNotSupported},
	{"DatatypeNotSupported", uint32(bacerr.DatatypeNotSupported), 47, bacerr.DatatypeNotSupported},
	{"InconsistentSelectionCriterion", uint32(bacerr.InconsistentSelectionCriterion), 8, bacerr.InconsistentSelectionCriterion},
	{"InvalidArrayIndex", uint32(bacerr.InvalidArrayIndex), 42, bacerr.InvalidArrayIndex},
	{"InvalidDataType", uint32(bacerr.InvalidDataType), 9, bacerr.InvalidDataType},
	{"NotCovProperty", uint32(bacerr.NotCovProperty), 44, bacerr.NotCovProperty},
	{"OptionalFunctionalityNotSupported", uint32(bacerr.OptionalFunctionalityNotSupported), 45, bacerr.OptionalFunctionalityNotSupported},
	{"PropertyIsNotAnArray", uint32(bacerr.PropertyIsNotAnArray), 50, bacerr.PropertyIsNotAnArray},
	{"UnknownProperty", uint32(bacerr.UnknownProperty), 32, bacerr.UnknownProperty},
	{"ValueOutOfRange", uint32(bacerr.ValueOutOfRange), 37, bacerr.ValueOutOfRange},
	{"WriteAccessDenied", uint32(bacerr.WriteAccessDenied), 40, bacerr.WriteAccessDenied},
	{"NoSpaceForObject", uint32(bacerr.NoSpaceForObject), 18, bacerr.NoSpaceForObject},
	{"NoSpaceToAddListElement", uint32(bacerr.NoSpaceToAddListElement), 19, bacerr.NoSpaceToAddListElement},
	{"NoSpaceToWriteProperty", uint32(bacerr.NoSpaceToWriteProperty), 20, bacerr.NoSpaceToWriteProperty},
	{"AuthenticationFailed", uint32(bacerr.AuthenticationFailed), 1, bacerr.AuthenticationFailed},
	{"IncompatibleSecurityLevels", uint32(bacerr.IncompatibleSecurityLevels), 6, bacerr.IncompatibleSecurityLevels},
	{"InvalidOperatorName", uint32(bacerr.InvalidOperatorName), 12, bacerr.InvalidOperatorName},
	{"KeyGenerationError", uint32(bacerr.KeyGenerationError), 15, bacerr.KeyGenerationError},
	{"PasswordFailure", uint32(bacerr.PasswordFailure), 26, bacerr.PasswordFailure},
	{"SecurityNotSupported", uint32(bacerr.SecurityNotSupported), 28, bacerr.SecurityNotSupported},
	{"Timeout", uint32(bacerr.Timeout), 30, bacerr.Timeout},
	{"CovSubscriptionFailed", uint32(bacerr.CovSubscriptionFailed), 43, bacerr.CovSubscriptionFailed},
	{"DuplicateName", uint32(bacerr.DuplicateName), 48, bacerr.DuplicateName},
	{"DuplicateObjectID", uint32(bacerr.DuplicateObjectID), 49, bacerr.DuplicateObjectID},
	{"FileAccessDenied", uint32(bacerr.FileAccessDenied), 5, bacerr.FileAccessDenied},
	{"InconsistentParameters", uint32(bacerr.InconsistentParameters), 7, bacerr.InconsistentParameters},
	{"InvalidConfigurationData", uint32(bacerr.InvalidConfigurationData), 46, bacerr.InvalidConfigurationData},
	{"InvalidFileAccessMethod", uint32(bacerr.InvalidFileAccessMethod), 10, bacerr.InvalidFileAccessMethod},
	{"InvalidFileStartPosition", uint32(bacerr.InvalidFileStartPosition), 11, bacerr.InvalidFileStartPosition},
	{"InvalidParameterDataType", uint32(bacerr.InvalidParameterDataType), 13, bacerr.InvalidParameterDataType},
	{"InvalidTimeStamp", uint32(bacerr.InvalidTimeStamp), 14, bacerr.InvalidTimeStamp},
	{"MissingRequiredParameter", uint32(bacerr.MissingRequiredParameter), 16, bacerr.MissingRequiredParameter},
	{"PropertyIsNotAList", uint32(bacerr.PropertyIsNotAList), 22, bacerr.PropertyIsNotAList},
	{"ServiceRequestDenied", uint32(bacerr.ServiceRequestDenied), 29, bacerr.ServiceRequestDenied},
	{"UnknownVtClass", uint32(bacerr.UnknownVtClass), 34, bacerr.UnknownVtClass},
	{"UnknownVtSession", uint32(bacerr.UnknownVtSession), 35, bacerr.UnknownVtSession},
	{"NoVtSessionsAvailable", uint32(bacerr.NoVtSessionsAvailable), 21, bacerr.NoVtSessionsAvailable},
	{"VtSessionAlreadyClosed", uint32(bacerr.VtSessionAlreadyClosed), 38, bacerr.VtSessionAlreadyClosed},
	{"VtSessionTerminationFailure", uint32(bacerr.VtSessionTerminationFailure), 39, bacerr.VtSessionTerminationFailure},
	{"AbortBufferOverflow", uint32(bacerr.AbortBufferOverflow), 51, bacerr.AbortBufferOverflow},
	{"AbortInvalidApduInThisState", uint32(bacerr.AbortInvalidApduInThisState), 52, bacerr.AbortInvalidApduInThisState},
	{"AbortPreemptedByHigherPriorityTask", uint32(bacerr.AbortPreemptedByHigherPriorityTask), 53, bacerr.AbortPreemptedByHigherPriorityTask},
	{"AbortSegmentationNotSupported", uint32(bacerr.AbortSegmentationNotSupported), 54, bacerr.AbortSegmentationNotSupported},
	{"AbortProprietary", uint32(bacerr.AbortProprietary), 55, bacerr.AbortProprietary},
	{"AbortOther", uint32(bacerr.AbortOther), 56, bacerr.AbortOther},
	{"InvalidTag", uint32(bacerr.InvalidTag), 57, bacerr.InvalidTag},
	{"NetworkDown", uint32(bacerr.NetworkDown), 58, bacerr.NetworkDown},
	{"RejectBufferOverflow", uint32(bacerr.RejectBufferOverflow), 59, bacerr.RejectBufferOverflow},
	{"RejectInconsistentParameters", uint32(bacerr.RejectInconsistentParameters), 60, bacerr.RejectInconsistentParameters},
	{"RejectInvalidParameterDataType", uint32(bacerr.RejectInvalidParameterDataType), 61, bacerr.RejectInvalidParameterDataType},
	{"RejectInvalidTag", uint32(bacerr.RejectInvalidTag), 62, bacerr.RejectInvalidTag},
	{"RejectMissingRequiredParameter", uint32(bacerr.RejectMissingRequiredParameter), 63, bacerr.RejectMissingRequiredParameter},
	{"RejectParameterOutOfRange", uint32(bacerr.RejectParameterOutOfRange), 64, bacerr.RejectParameterOutOfRange},
	{"RejectTooManyArguments", uint32(bacerr.RejectTooManyArguments), 65, bacerr.RejectTooManyArguments},
	{"RejectUndefinedEnumeration", uint32(bacerr.RejectUndefinedEnumeration), 66, bacerr.RejectUndefinedEnumeration},
	{"RejectUnrecognizedService", uint32(bacerr.RejectUnrecognizedService), 67, bacerr.RejectUnrecognizedService},
	{"RejectProprietary", uint32(bacerr.RejectProprietary), 68, bacerr.RejectProprietary},
	{"RejectOther", uint32(bacerr.RejectOther), 69, bacerr.RejectOther},
	{"UnknownDevice", uint32(bacerr.UnknownDevice), 70, bacerr.UnknownDevice},
	{"UnknownRoute", uint32(bacerr.UnknownRoute), 71, bacerr.UnknownRoute},
	{"ValueNotInitialized", uint32(bacerr.ValueNotInitialized), 72, bacerr.ValueNotInitialized},
	{"InvalidEventState", uint32(bacerr.InvalidEventState), 73, bacerr.InvalidEventState},
	{"NoAlarmConfigured", uint32(bacerr.NoAlarmConfigured), 74, bacerr.NoAlarmConfigured},
	{"LogBufferFull", uint32(bacerr.LogBufferFull), 75, bacerr.LogBufferFull},
	{"LoggedValuePurged", uint32(bacerr.LoggedValuePurged), 76, bacerr.LoggedValuePurged},
	{"NoPropertySpecified", uint32(bacerr.NoPropertySpecified), 77, bacerr.NoPropertySpecified},
	{"NotConfiguredForTriggeredLogging", uint32(bacerr.NotConfiguredForTriggeredLogging), 78, bacerr.NotConfiguredForTriggeredLogging},
	{"UnknownSubscription", uint32(bacerr.UnknownSubscription), 79, bacerr.UnknownSubscription},
	{"ParameterOutOfRange", uint32(bacerr.ParameterOutOfRange), 80, bacerr.ParameterOutOfRange},
	{"ListElementNotFound", uint32(bacerr.ListElementNotFound), 81, bacerr.ListElementNotFound},
	{"Busy", uint32(bacerr.Busy), 82, bacerr.Busy},
	{"CommunicationDisabled", uint32(bacerr.CommunicationDisabled), 83, bacerr.CommunicationDisabled},
	{"Success", uint32(bacerr.Success), 84, bacerr.Success},
	{"AccessDenied", uint32(bacerr.AccessDenied), 85, bacerr.AccessDenied},
	{"BadDestinationAddress", uint32(bacerr.BadDestinationAddress), 86, bacerr.BadDestinationAddress},
	{"BadDestinationDeviceID", uint32(bacerr.BadDestinationDeviceID), 87, bacerr.BadDestinationDeviceID},
	{"BadSignature", uint32(bacerr.BadSignature), 88, bacerr.BadSignature},
	{"BadSourceAddress", uint32(bacerr.BadSourceAddress), 89, bacerr.BadSourceAddress},
	{"BadTimestamp", uint32(bacerr.BadTimestamp), 90, bacerr.BadTimestamp},
	{"CannotUseKey", uint32(bacerr.CannotUseKey), 91, bacerr.CannotUseKey},
	{"CannotVerifyMessageID", uint32(bacerr.CannotVerifyMessageID), 92, bacerr.CannotVerifyMessageID},
	{"CorrectKeyRevision", uint32(bacerr.CorrectKeyRevision), 93, bacerr.CorrectKeyRevision},
	{"DestinationDeviceIDRequired", uint32(bacerr.DestinationDeviceIDRequired), 94, bacerr.DestinationDeviceIDRequired},
	{"DuplicateMessage", uint32(bacerr.DuplicateMessage), 95, bacerr.DuplicateMessage},
	{"EncryptionNotConfigured", uint32(bacerr.EncryptionNotConfigured), 96, bacerr.EncryptionNotConfigured},
	{"EncryptionRequired", uint32(bacerr.EncryptionRequired), 97, bacerr.EncryptionRequired},
	{"IncorrectKey", uint32(bacerr.IncorrectKey), 98, bacerr.IncorrectKey},
	{"InvalidKeyData", uint32(bacerr.InvalidKeyData), 99, bacerr.InvalidKeyData},
	{"KeyUpdateInProgress", uint32(bacerr.KeyUpdateInProgress), 100, bacerr.KeyUpdateInProgress},
	{"MalformedMessage", uint32(bacerr.MalformedMessage), 101, bacerr.MalformedMessage},
	{"NotKeyServer", uint32(bacerr.NotKeyServer), 102, bacerr.NotKeyServer},
	{"SecurityNotConfigured", uint32(bacerr.SecurityNotConfigured), 103, bacerr.SecurityNotConfigured},
	{"SourceSecurityRequired", uint32(bacerr.SourceSecurityRequired), 104, bacerr.SourceSecurityRequired},
	{"TooManyKeys", uint32(bacerr.TooManyKeys), 105, bacerr.TooManyKeys},
	{"UnknownAuthenticationType", uint32(bacerr.UnknownAuthenticationType), 106, bacerr.UnknownAuthenticationType},
	{"UnknownKey", uint32(bacerr.UnknownKey), 107, bacerr.UnknownKey},
	{"UnknownKeyRevision", uint32(bacerr.UnknownKeyRevision), 108, bacerr.UnknownKeyRevision},
	{"UnknownSourceMessage", uint32(bacerr.UnknownSourceMessage), 109, bacerr.UnknownSourceMessage},
	{"NotRouterToDnet", uint32(bacerr.NotRouterToDnet), 110, bacerr.NotRouterToDnet},
	{"RouterBusy", uint32(bacerr.RouterBusy), 111, bacerr.RouterBusy},
	{"UnknownNetworkMessage", uint32(bacerr.UnknownNetworkMessage), 112, bacerr.UnknownNetworkMessage},
	{"MessageTooLong", uint32(bacerr.MessageTooLong), 113, bacerr.MessageTooLong},
	{"SecurityErrorCode", uint32(bacerr.SecurityErrorCode), 114, bacerr.SecurityErrorCode},
	{"AddressingError", uint32(bacerr.AddressingError), 115, bacerr.AddressingError},
	{"WriteBdtFailed", uint32(bacerr.WriteBdtFailed), 116, bacerr.WriteBdtFailed},
	{"ReadBdtFailed", uint32(bacerr.ReadBdtFailed), 117, bacerr.ReadBdtFailed},
	{"RegisterForeignDeviceFailed", uint32(bacerr.RegisterForeignDeviceFailed), 118, bacerr.RegisterForeignDeviceFailed},
	{"ReadFdtFailed", uint32(bacerr.ReadFdtFailed), 119, bacerr.ReadFdtFailed},
	{"DeleteFdtEntryFailed", uint32(bacerr.DeleteFdtEntryFailed), 120, bacerr.DeleteFdtEntryFailed},
	{"DistributeBroadcastFailed", uint32(bacerr.DistributeBroadcastFailed), 121, bacerr.DistributeBroadcastFailed},
	{"UnknownFileSize", uint32(bacerr.UnknownFileSize), 122, bacerr.UnknownFileSize},
	{"AbortApduTooLong", uint32(bacerr.AbortApduTooLong), 123, bacerr.AbortApduTooLong},
	{"AbortApplicationExceededReplyTime", uint32(bacerr.AbortApplicationExceededReplyTime), 124, bacerr.AbortApplicationExceededReplyTime},
	{"AbortOutOfResources", uint32(bacerr.AbortOutOfResources), 125, bacerr.AbortOutOfResources},
	{"AbortTsmTimeout", uint32(bacerr.AbortTsmTimeout), 126, bacerr.AbortTsmTimeout},
	{"AbortWindowSizeOutOfRange", uint32(bacerr.AbortWindowSizeOutOfRange), 127, bacerr.AbortWindowSizeOutOfRange},
	{"FileFull", uint32(bacerr.FileFull), 128, bacerr.FileFull},
	{"InconsistentConfiguration", uint32(bacerr.InconsistentConfiguration), 129, bacerr.InconsistentConfiguration},
	{"InconsistentObjectType", uint32(bacerr.InconsistentObjectType), 130, bacerr.InconsistentObjectType},
	{"InternalError", uint32(bacerr.InternalError), 131, bacerr.InternalError},
	{"NotConfigured", uint32(bacerr.NotConfigured), 132, bacerr.NotConfigured},
	{"OutOfMemory", uint32(bacerr.OutOfMemory), 133, bacerr.OutOfMemory},
	{"ValueTooLong", uint32(bacerr.ValueTooLong), 134, bacerr.ValueTooLong},
	{"AbortInsufficientSecurity", uint32(bacerr.AbortInsufficientSecurity), 135, bacerr.AbortInsufficientSecurity},
	{"AbortSecurityError", uint32(bacerr.AbortSecurityError), 136, bacerr.AbortSecurityError},
}

var stdUnits = []named{
	{"SquareMeters", uint32(units.SquareMeters), 0, units.SquareMeters},
	{"SquareFeet", uint32(units.SquareFeet), 1, units.SquareFeet},
	{"Milliamperes", uint32(units.Milliamperes), 2, units.Milliamperes},
	{"Amperes", uint32(units.Amperes), 3, units.Amperes},
	{"Ohms", uint32(units.Ohms), 4, units.Ohms},
	{"Volts", uint32(units.Volts), 5, units.Volts},
	{"Kilovolts", uint32(units.Kilovolts), 6, units.Kilovolts},
	{"Megavolts", uint32(units.Megavolts), 7, units.Megavolts},
	{"VoltAmperes", uint32(units.VoltAmperes), 8, units.VoltAmperes},
	{"KilovoltAmperes", uint32(units.KilovoltAmperes), 9, units.KilovoltAmperes},
	{"MegavoltAmperes", uint32(units.MegavoltAmperes), 10, units.MegavoltAmperes},
	{"VoltAmperesReactive", uint32(units.VoltAmperesReactive), 11, units.VoltAmperesReactive},
	{"KilovoltAmperesReactive", uint32(units.KilovoltAmperesReactive), 12, units.KilovoltAmperesReactive},
	{"MegavoltAmperesReactive", uint32(units.MegavoltAmperesReactive), 13, units.MegavoltAmperesReactive},
	{"DegreesPhase", uint32(units.DegreesPhase), 14, units.DegreesPhase},
	{"PowerFactor", uint32(units.PowerFactor), 15, units.PowerFactor},
	{"Joules", uint32(units.Joules), 16, units.Joules},
	{"Kilojoules", uint32(units.Kilojoules), 17, units.Kilojoules},
	{"WattHours", uint32(units.WattHours), 18, units.WattHours},
	{"KilowattHours", uint32(units.KilowattHours), 19, units.KilowattHours},
	{"Btus", uint32(units.Btus), 20, units.Btus},
	{"Therms", uint32(units.Therms), 21, units.Therms},
	{"TonHours", uint32(units.TonHours), 22, units.TonHours},
	{"JoulesPerKilogramDryAir", uint32(units.JoulesPerKilogramDryAir), 23, units.JoulesPerKilogramDryAir},
	{"BtusPerPoundDryAir", uint32(units.BtusPerPoundDryAir), 24, units.BtusPerPoundDryAir},
	{"CyclesPerHour", uint32(units.CyclesPerHour), 25, units.CyclesPerHour},
	{"CyclesPerMinute", uint32(units.CyclesPerMinute), 26, units.CyclesPerMinute},
	{"Hertz", uint32(units.Hertz), 27, units.Hertz},
	{"GramsOfWaterPerKilogramDryAir", uint32(units.GramsOfWaterPerKilogramDryAir), 28, units.GramsOfWaterPerKilogramDryAir},
	{"PercentRelativeHumidity", uint32(units.PercentRelativeHumidity), 29, units.PercentRelativeHumidity},
	{"Millimeters", uint32(units.Millimeters), 30, units.Millimeters},
	{"Meters", uint32(units.Meters), 31, units.Meters},
	{"Inches", uint32(units.Inches), 32, units.Inches},
	{"Feet", uint32(units.Feet), 33, units.Feet},
	{"WattsPerSquareFoot", uint32(units.WattsPerSquareFoot), 34, units.WattsPerSquareFoot},
	{"WattsPerSquareMeter", uint32(units.WattsPerSquareMeter), 35, units.WattsPerSquareMeter},
	{"Lumens", uint32(units.Lumens), 36, units.Lumens},
	{"Luxes", uint32(units.Luxes), 37, units.Luxes},
	{"FootCandles", uint32(units.FootCandles), 38, units.FootCandles},
	{"Kilograms", uint32(units.Kilograms), 39, units.Kilograms},
	{"PoundsMass", uint32(units.PoundsMass), 40, units.PoundsMass},
	{"Tons", uint32(units.Tons), 41, units.Tons},
	{"KilogramsPerSecond", uint32(units.KilogramsPerSecond), 42, units.KilogramsPerSecond},
	{"KilogramsPerMinute", uint32(units.KilogramsPerMinute), 43, units.KilogramsPerMinute},
	{"KilogramsPerHour", uint32(units.KilogramsPerHour), 44, units.KilogramsPerHour},
	{"PoundsMassPerMinute", uint32(units.PoundsMassPerMinute), 45, units.PoundsMassPerMinute},
	{"PoundsMassPerHour", uint32(units.PoundsMassPerHour), 46, units.PoundsMassPerHour},
	{"Watts", uint32(units.Watts), 47, units.Watts},
	{"Kilowatts", uint32(units.Kilowatts), 48, units.Kilowatts},
	{"Megawatts", uint32(units.Megawatts), 49, units.Megawatts},
	{"BtusPerHour", uint32(units.BtusPerHour), 50, units.BtusPerHour},
	{"Horsepower", uint32(units.Horsepower), 51, units.Horsepower},
	{"TonsRefrigeration", uint32(units.TonsRefrigeration), 52, units.TonsRefrigeration},
	{"Pascals", uint32(units.Pascals), 53, units.Pascals},
	{"Kilopascals", uint32(units.Kilopascals), 54, units.Kilopascals},
	{"Bars", uint32(units.Bars), 55, units.Bars},
	{"PoundsForcePerSquareInch", uint32(units.PoundsForcePerSquareInch), 56, units.PoundsForcePerSquareInch},
	{"CentimetersOfWater", uint32(units.CentimetersOfWater), 57, units.CentimetersOfWater},
	{"InchesOfWater", uint32(units.InchesOfWater), 58, units.InchesOfWater},
	{"MillimetersOfMercury", uint32(units.MillimetersOfMercury), 59, units.MillimetersOfMercury},
	{"CentimetersOfMercury", uint32(units.CentimetersOfMercury), 60, units.CentimetersOfMercury},
	{"InchesOfMercury", uint32(units.InchesOfMercury), 61, units.InchesOfMercury},
	{"DegreesCelsius", uint32(units.DegreesCelsius), 62, units.DegreesCelsius},
	{"DegreesKelvin", uint32(units.DegreesKelvin), 63, units.DegreesKelvin},
	{"DegreesFahrenheit", uint32(units.DegreesFahrenheit), 64, units.DegreesFahrenheit},
	{"DegreeDaysCelsius", uint32(units.DegreeDaysCelsius), 65, units.DegreeDaysCelsius},
	{"DegreeDaysFahrenheit", uint32(units.DegreeDaysFahrenheit), 66, units.DegreeDaysFahrenheit},
	{"Years", uint32(units.Years), 67, units.Years},
	{"Months", uint32(units.Months), 68, units.Months},
	{"Weeks", uint32(units.Weeks), 69, units.Weeks},
	{"Days", uint32(units.Days), 70, units.Days},
	{"Hours", uint32(units.Hours), 71, units.Hours},
	{"Minutes", uint32(units.Minutes), 72, units.Minutes},
	{"Seconds", uint32(units.Seconds), 73, units.Seconds},
	{"MetersPerSecond", uint32(units.MetersPerSecond), 74, units.MetersPerSecond},
	{"KilometersPerHour", uint32(units.KilometersPerHour), 75, units.KilometersPerHour},
	{"FeetPerSecond", uint32(units.FeetPerSecond), 76, units.FeetPerSecond},
	{"FeetPerMinute", uint32(units.FeetPerMinute), 77, units.FeetPerMinute},
	{"MilesPerHour", uint32(units.MilesPerHour), 78, units.MilesPerHour},
	{"CubicFeet", uint32(units.CubicFeet), 79, units.CubicFeet},
	{"CubicMeters", uint32(units.CubicMeters), 80, units.CubicMeters},
	{"ImperialGallons", uint32(units.ImperialGallons), 81, units.ImperialGallons},
	{"Liters", uint32(units.Liters), 82, units.Liters},
	{"UsGallons", uint32(units.UsGallons), 83, units.UsGallons},
	{"CubicFeetPerMinute", uint32(units.CubicFeetPerMinute), 84, units.CubicFeetPerMinute},
	{"CubicMetersPerSecond", uint32(units.CubicMetersPerSecond), 85, units.CubicMetersPerSecond},
	{"ImperialGallonsPerMinute", uint32(units.ImperialGallonsPerMinute), 86, units.ImperialGallonsPerMinute},
	{"LitersPerSecond", uint32(units.LitersPerSecond), 87, units.LitersPerSecond},
	{"LitersPerMinute", uint32(units.LitersPerMinute), 88, units.LitersPerMinute},
	{"USGallonsPerMinute", uint32(units.USGallonsPerMinute), 89, units.USGallonsPerMinute},
	{"DegreesAngular", uint32(units.DegreesAngular), 90, units.DegreesAngular},
	{"DegreesCelsiusPerHour", uint32(units.DegreesCelsiusPerHour), 91, units.DegreesCelsiusPerHour},
	{"DegreesCelsiusPerMinute", uint32(units.DegreesCelsiusPerMinute), 92, units.DegreesCelsiusPerMinute},
	{"DegreesFahrenheitPerHour", uint32(units.DegreesFahrenheitPerHour), 93, units.DegreesFahrenheitPerHour},
	{"DegreesFahrenheitPerMinute", uint32(units.DegreesFahrenheitPerMinute), 94, units.DegreesFahrenheitPerMinute},
	{"NoUnits", uint32(units.NoUnits), 95, units.NoUnits},
	{"PartsPerMillion", uint32(units.PartsPerMillion), 96, units.PartsPerMillion},
	{"PartsPerBillion", uint32(units.PartsPerBillion), 97, units.PartsPerBillion},
	{"Percent", uint32(units.Percent), 98, units.Percent},
	{"PercentPerSecond", uint32(units.PercentPerSecond), 99, units.PercentPerSecond},
	{"PerMinute", uint32(units.PerMinute), 100, units.PerMinute},
	{"PerSecond", uint32(units.PerSecond), 101, units.PerSecond},
	{"PsiPerDegreeFahrenheit", uint32(units.PsiPerDegreeFahrenheit), 102, units.PsiPerDegreeFahrenheit},
	{"Radians", uint32(units.Radians), 103, units.Radians},
	{"RevolutionsPerMinute", uint32(units.RevolutionsPerMinute), 104, units.RevolutionsPerMinute},
	{"SquareInches", uint32(units.SquareInches), 115, units.SquareInches},
	{"SquareCentimeters", uint32(units.SquareCentimeters), 116, units.SquareCentimeters},
	{"BtusPerPound", uint32(units.BtusPerPound), 117, units.BtusPerPound},
	{"Centimeters", uint32(units.Centimeters), 118, units.Centimeters},
	{"PoundsMassPerSecond", uint32(units.PoundsMassPerSecond), 119, units.PoundsMassPerSecond},
	{"DeltaDegreesFahrenheit", uint32(units.DeltaDegreesFahrenheit), 120, units.DeltaDegreesFahrenheit},
	{"DeltaDegreesKelvin", uint32(units.DeltaDegreesKelvin), 121, units.DeltaDegreesKelvin},
	{"Kilohms", uint32(units.Kilohms), 122, units.Kilohms},
	{"Megohms", uint32(units.Megohms), 123, units.Megohms},
	{"Millivolts", uint32(units.Millivolts), 124, units.Millivolts},
	{"KilojoulesPerKilogram", uint32(units.KilojoulesPerKilogram), 125, units.KilojoulesPerKilogram},
	{"Megajoules", uint32(units.Megajoules), 126, units.Megajoules},
	{"JoulesPerDegreeKelvin", uint32(units.JoulesPerDegreeKelvin), 127, units.JoulesPerDegreeKelvin},
	{"JoulesPerKilogramDegreeKelvin", uint32(units.JoulesPerKilogramDegreeKelvin), 128, units.JoulesPerKilogramDegreeKelvin},
	{"Kilohertz", uint32(units.Kilohertz), 129, units.Kilohertz},
	{"Megahertz", uint32(units.Megahertz), 130, units.Megahertz},
	{"PerHour", uint32(units.PerHour), 131, units.PerHour},
	{"Milliwatts", uint32(units.Milliwatts), 132, units.Milliwatts},
	{"Hectopascals", uint32(units.Hectopascals), 133, units.Hectopascals},
	{"Millibars", uint32(units.Millibars), 134, units.Millibars},
	{"CubicMetersPerHour", uint32(units.CubicMetersPerHour), 135, units.CubicMetersPerHour},
	{"LitersPerHour", uint32(units.LitersPerHour), 136, units.LitersPerHour},
	{"KwHoursPerSquareMeter", uint32(units.KwHoursPerSquareMeter), 137, units.KwHoursPerSquareMeter},
	{"KwHoursPerSquareFoot", uint32(units.KwHoursPerSquareFoot), 138, units.KwHoursPerSquareFoot},
	{"MegajoulesPerSquareMeter", uint32(units.MegajoulesPerSquareMeter), 139, units.MegajoulesPerSquareMeter},
	{"MegajoulesPerSquareFoot", uint32(units.MegajoulesPerSquareFoot), 140, units.MegajoulesPerSquareFoot},
	{"WattsPerSquareMeterDegreeKelvin", uint32(units.WattsPerSquareMeterDegreeKelvin), 141, units.WattsPerSquareMeterDegreeKelvin},
	{"CubicFeetPerSecond", uint32(units.CubicFeetPerSecond), 142, units.CubicFeetPerSecond},
	{"PercentObscurationPerFoot", uint32(units.PercentObscurationPerFoot), 143, units.PercentObscurationPerFoot},
	{"PercentObscurationPerMeter", uint32(units.PercentObscurationPerMeter), 144, units.PercentObscurationPerMeter},
	{"Milliohms", uint32(units.Milliohms), 145, units.Milliohms},
	{"MegawattHours", uint32(units.MegawattHours), 146, units.MegawattHours},
	{"KiloBtus", uint32(units.KiloBtus), 147, units.KiloBtus},
	{"MegaBtus", uint32(units.MegaBtus), 148, units.MegaBtus},
	{"KilojoulesPerKilogramDryAir", uint32(units.KilojoulesPerKilogramDryAir), 149, units.KilojoulesPerKilogramDryAir},
	{"MegajoulesPerKilogramDryAir", uint32(units.MegajoulesPerKilogramDryAir), 150, units.MegajoulesPerKilogramDryAir},
	{"KilojoulesPerDegreeKelvin", uint32(units.KilojoulesPerDegreeKelvin), 151, units.KilojoulesPerDegreeKelvin},
	{"MegajoulesPerDegreeKelvin", uint32(units.MegajoulesPerDegreeKelvin), 152, units.MegajoulesPerDegreeKelvin},
	{"Newton", uint32(units.Newton), 153, units.Newton},
	{"GramsPerSecond", uint32(units.GramsPerSecond), 154, units.GramsPerSecond},
	{"GramsPerMinute", uint32(units.GramsPerMinute), 155, units.GramsPerMinute},
	{"TonsPerHour", uint32(units.TonsPerHour), 156, units.TonsPerHour},
	{"KiloBtusPerHour", uint32(units.KiloBtusPerHour), 157, units.KiloBtusPerHour},
	{"HundredthsSeconds", uint32(units.HundredthsSeconds), 158, units.HundredthsSeconds},
	{"Milliseconds", uint32(units.Milliseconds), 159, units.Milliseconds},
	{"NewtonMeters", uint32(units.NewtonMeters), 160, units.NewtonMeters},
	{"MillimetersPerSecond", uint32(units.MillimetersPerSecond), 161, units.MillimetersPerSecond},
	{"MillimetersPerMinute", uint32(units.MillimetersPerMinute), 162, units.MillimetersPerMinute},
	{"MetersPerMinute", uint32(units.MetersPerMinute), 163, units.MetersPerMinute},
	{"MetersPerHour", uint32(units.MetersPerHour), 164, units.MetersPerHour},
	{"CubicMetersPerMinute", uint32(units.CubicMetersPerMinute), 165, units.CubicMetersPerMinute},
	{"MetersPerSecondPerSecond", uint32(units.MetersPerSecondPerSecond), 166, units.MetersPerSecondPerSecond},
	{"AmperesPerMeter", uint32(units.AmperesPerMeter), 167, units.AmperesPerMeter},
	{"AmperesPerSquareMeter", uint32(units.AmperesPerSquareMeter), 168, units.AmperesPerSquareMeter},
	{"AmpereSquareMeters", uint32(units.AmpereSquareMeters), 169, units.AmpereSquareMeters},
	{"Farads", uint32(units.Farads), 170, units.Farads},
	{"Henrys", uint32(units.Henrys), 171, units.Henrys},
	{"OhmMeters", uint32(units.OhmMeters), 172, units.OhmMeters},
	{"Siemens", uint32(units.Siemens), 173, units.Siemens},
	{"SiemensPerMeter", uint32(units.SiemensPerMeter), 174, units.SiemensPerMeter},
	{"Teslas", uint32(units.Teslas), 175, units.Teslas},
	{"VoltsPerDegreeKelvin", uint32(units.VoltsPerDegreeKelvin), 176, units.VoltsPerDegreeKelvin},
	{"VoltsPerMeter", uint32(units.VoltsPerMeter), 177, units.VoltsPerMeter},
	{"Webers", uint32(units.Webers), 178, units.Webers},
	{"Candelas", uint32(units.Candelas), 179, units.Candelas},
	{"CandelasPerSquareMeter", uint32(units.CandelasPerSquareMeter), 180, units.CandelasPerSquareMeter},
	{"DegreesKelvinPerHour", uint32(units.DegreesKelvinPerHour), 181, units.DegreesKelvinPerHour},
	{"DegreesKelvinPerMinute", uint32(units.DegreesKelvinPerMinute), 182, units.DegreesKelvinPerMinute},
	{"JouleSeconds", uint32(units.JouleSeconds), 183, units.JouleSeconds},
	{"RadiansPerSecond", uint32(units.RadiansPerSecond), 184, units.RadiansPerSecond},
	{"SquareMetersPerNewton", uint32(units.SquareMetersPerNewton), 185, units.SquareMetersPerNewton},
	{"KilogramsPerCubicMeter", uint32(units.KilogramsPerCubicMeter), 186, units.KilogramsPerCubicMeter},
	{"NewtonSeconds", uint32(units.NewtonSeconds), 187, units.NewtonSeconds},
	{"NewtonsPerMeter", uint32(units.NewtonsPerMeter), 188, units.NewtonsPerMeter},
	{"WattsPerMeterPerDegreeKelvin", uint32(units.WattsPerMeterPerDegreeKelvin), 189, units.WattsPerMeterPerDegreeKelvin},
	{"Microsiemens", uint32(units.Microsiemens), 190, units.Microsiemens},
	{"CubicFeetPerHour", uint32(units.CubicFeetPerHour), 191, units.CubicFeetPerHour},
	{"USGallonsPerHour", uint32(units.USGallonsPerHour), 192, units.USGallonsPerHour},
	{"Kilometers", uint32(units.Kilometers), 193, units.Kilometers},
	{"Micrometers", uint32(units.Micrometers), 194, units.Micrometers},
	{"Grams", uint32(units.Grams), 195, units.Grams},
	{"Milligrams", uint32(units.Milligrams), 196, units.Milligrams},
	{"Milliliters", uint32(units.Milliliters), 197, units.Milliliters},
	{"MillilitersPerSecond", uint32(units.MillilitersPerSecond), 198, units.MillilitersPerSecond},
	{"Decibels", uint32(units.Decibels), 199, units.Decibels},
	{"DecibelsMillivolt", uint32(units.DecibelsMillivolt), 200, units.DecibelsMillivolt},
	{"DecibelsVolt", uint32(units.DecibelsVolt), 201, units.DecibelsVolt},
	{"Millisiemens", uint32(units.Millisiemens), 202, units.Millisiemens},
	{"WattHoursReactive", uint32(units.WattHoursReactive), 203, units.WattHoursReactive},
	{"KilowattHoursReactive", uint32(units.KilowattHoursReactive), 204, units.KilowattHoursReactive},
	{"MegawattHoursReactive", uint32(units.MegawattHoursReactive), 205, units.MegawattHoursReactive},
	{"MillimetersOfWater", uint32(units.MillimetersOfWater), 206, units.MillimetersOfWater},
	{"PerMille", uint32(units.PerMille), 207, units.PerMille},
	{"GramsPerGram", uint32(units.GramsPerGram), 208, units.GramsPerGram},
	{"KilogramsPerKilogram", uint32(units.KilogramsPerKilogram), 209, units.KilogramsPerKilogram},
	{"GramsPerKilogram", uint32(units.GramsPerKilogram), 210, units.GramsPerKilogram},
	{"MilligramsPerGram", uint32(units.MilligramsPerGram), 211, units.MilligramsPerGram},
	{"MilligramsPerKilogram", uint32(units.MilligramsPerKilogram), 212, units.MilligramsPerKilogram},
	{"GramsPerMilliliter", uint32(units.GramsPerMilliliter), 213, units.GramsPerMilliliter},
	{"GramsPerLiter", uint32(units.GramsPerLiter), 214, units.GramsPerLiter},
	{"MilligramsPerLiter", uint32(units.MilligramsPerLiter), 215, units.MilligramsPerLiter},
	{"MicrogramsPerLiter", uint32(units.MicrogramsPerLiter), 216, units.MicrogramsPerLiter},
	{"GramsPerCubicMeter", uint32(units.GramsPerCubicMeter), 217, units.GramsPerCubicMeter},
	{"MilligramsPerCubicMeter", uint32(units.MilligramsPerCubicMeter), 218, units.MilligramsPerCubicMeter},
	{"MicrogramsPerCubicMeter", uint32(units.MicrogramsPerCubicMeter), 219, units.MicrogramsPerCubicMeter},
	{"NanogramsPerCubicMeter", uint32(units.NanogramsPerCubicMeter), 220, units.NanogramsPerCubicMeter},
	{"GramsPerCubicCentimeter", uint32(units.GramsPerCubicCentimeter), 221, units.GramsPerCubicCentimeter},
	{"Becquerels", uint32(units.Becquerels), 222, units.Becquerels},
	{"Megabecquerels", uint32(units.Megabecquerels), 224, units.Megabecquerels},
	{"Gray", uint32(units.Gray), 225, units.Gray},
	{"Milligray", uint32(units.Milligray), 226, units.Milligray},
	{"Microgray", uint32(units.Microgray), 227, units.Microgray},
	{"Sieverts", uint32(units.Sieverts), 228, units.Sieverts},
	{"Millisieverts", uint32(units.Millisieverts), 229, units.Millisieverts},
	{"Microsieverts", uint32(units.Microsieverts), 230, units.Microsieverts},
	{"MicrosievertsPerHour", uint32(units.MicrosievertsPerHour), 231, units.MicrosievertsPerHour},
	{"DecibelsA", uint32(units.DecibelsA), 232, units.DecibelsA},
	{"NephelometricTurbidityUnit", uint32(units.NephelometricTurbidityUnit), 233, units.NephelometricTurbidityUnit},
	{"Ph", uint32(units.Ph), 234, units.Ph},
	{"GramsPerSquareMeter", uint32(units.GramsPerSquareMeter), 235, units.GramsPerSquareMeter},
	{"MinutesPerDegreeKelvin", uint32(units.MinutesPerDegreeKelvin), 236, units.MinutesPerDegreeKelvin},
}

var stdSegmentation = []named{
	{"SegmentedBoth", uint32(segmentation.SegmentedBoth), 0, segmentation.SegmentedBoth},
	{"SegmentedTransmit", uint32(segmentation.SegmentedTransmit), 1, segmentation.SegmentedTransmit},
	{"SegmentedReceive", uint32(segmentation.SegmentedReceive), 2, segmentation.SegmentedReceive},
	{"NoSegmentation", uint32(segmentation.NoSegmentation), 3, segmentation.NoSegmentation},
}

var stdNetworkMessages = []named{
	{"WhoIsRouterToNetwork", uint32(ndpu.WhoIsRouterToNetwork), 0, ndpu.WhoIsRouterToNetwork},
	{"IamRouterToNetwork", uint32(ndpu.IamRouterToNetwork), 1, ndpu.IamRouterToNetwork},
	{"WhatIsNetworkNumber", uint32(ndpu.WhatIsNetworkNumber), 18, ndpu.WhatIsNetworkNumber},
	{"NetworkIs", uint32(ndpu.NetworkIs), 19, ndpu.NetworkIs},
}

var stdProperties = []named{
	{"PropAllProperties", uint32(btypes.PropAllProperties), 8, nil},
	{"PropDescription", uint32(btypes.PropDescription), 28, nil},
	{"PropFileSize", uint32(btypes.PropFileSize), 42, nil},
	{"PropFileType", uint32(btypes.PropFileType), 43, nil},
	{"PropModelName", uint32(btypes.PropModelName), 70, nil},
	{"PropObjectIdentifier", uint32(btypes.PropObjectIdentifier), 75, nil},
	{"PropObjectList", uint32(btypes.PropObjectList), 76, nil},
	{"PropObjectName", uint32(btypes.PropObjectName), 77, nil},
	{"PropObjectReference", uint32(btypes.PropObjectReference), 78, nil},
	{"PropObjectType", uint32(btypes.PropObjectType), 79, nil},
	{"PropPresentValue", uint32(btypes.PropPresentValue), 85, nil},
	{"PropUnits", uint32(btypes.PropUnits), 117, nil},
	{"PropPriorityArray", uint32(btypes.PropPriorityArray), 87, nil},
	{"PropMaxAPDU", uint32(btypes.PropMaxAPDU), 62, nil},
	{"PropSegmentationSupported", uint32(btypes.PropSegmentationSupported), 107, nil},
	{"PropVendorName", uint32(btypes.PropVendorName), 121, nil},
	{"PropVendorIdentifier", uint32(btypes.PropVendorIdentifier), 120, nil},
	{"PropProtocolObjectTypesSupported", uint32(btypes.PropProtocolObjectTypesSupported), 96, nil},
	{"ProtocolServicesSupported", uint32(btypes.ProtocolServicesSupported), 97, nil},
	{"PROP_ACKED_TRANSITIONS", uint32(btypes.PROP_ACKED_TRANSITIONS), 0, nil},
	{"PROP_ACK_REQUIRED", uint32(btypes.PROP_ACK_REQUIRED), 1, nil},
	{"PROP_ACTION", uint32(btypes.PROP_ACTION), 2, nil},
	{"PROP_ACTION_TEXT", uint32(btypes.PROP_ACTION_TEXT), 3, nil},
	{"PROP_ACTIVE_TEXT", uint32(btypes.PROP_ACTIVE_TEXT), 4, nil},
	{"PROP_ACTIVE_VT_SESSIONS", uint32(btypes.PROP_ACTIVE_VT_SESSIONS), 5, nil},
	{"PROP_ALARM_VALUE", uint32(btypes.PROP_ALARM_VALUE), 6, nil},
	{"PROP_ALARM_VALUES", uint32(btypes.PROP_ALARM_VALUES), 7, nil},
	{"PROP_ALL", uint32(btypes.PROP_ALL), 8, nil},
	{"PROP_ALL_WRITES_SUCCESSFUL", uint32(btypes.PROP_ALL_WRITES_SUCCESSFUL), 9, nil},
	{"PROP_APDU_SEGMENT_TIMEOUT", uint32(btypes.PROP_APDU_SEGMENT_TIMEOUT), 10, nil},
	{"PROP_APDU_TIMEOUT", uint32(btypes.PROP_APDU_TIMEOUT), 11, nil},
	{"PROP_APPLICATION_SOFTWARE_VERSION", uint32(btypes.PROP_APPLICATION_SOFTWARE_VERSION), 12, nil},
	{"PROP_ARCHIVE", uint32(btypes.PROP_ARCHIVE), 13, nil},
	{"PROP_BIAS", uint32(btypes.PROP_BIAS), 14, nil},
	{"PROP_CHANGE_OF_STATE_COUNT", uint32(btypes.PROP_CHANGE_OF_STATE_COUNT), 15, nil},
	{"PROP_CHANGE_OF_STATE_TIME", uint32(btypes.PROP_CHANGE_OF_STATE_TIME), 16, nil},
	{"PROP_NOTIFICATION_CLASS", uint32(btypes.PROP_NOTIFICATION_CLASS), 17, nil},
	{"PROP_BLANK_1", uint32(btypes.PROP_BLANK_1), 18, nil},
	{"PROP_CONTROLLED_VARIABLE_REFERENCE", uint32(btypes.PROP_CONTROLLED_VARIABLE_REFERENCE), 19, nil},
	{"PROP_CONTROLLED_VARIABLE_Propertybtypes", uint32(btypes.PROP_CONTROLLED_VARIABLE_Propertybtypes), 20, nil},
	{"PROP_CONTROLLED_VARIABLE_VALUE", uint32(btypes.PROP_CONTROLLED_VARIABLE_VALUE), 21, nil},
	{"PROP_COV_INCREMENT", uint32(btypes.PROP_COV_INCREMENT), 22, nil},
	{"PROP_DATE_LIST", uint32(btypes.PROP_DATE_LIST), 23, nil},
	{"PROP_DAYLIGHT_SAVINGS_STATUS", uint32(btypes.PROP_DAYLIGHT_SAVINGS_STATUS), 24, nil},
	{"PROP_DEADBAND", uint32(btypes.PROP_DEADBAND), 25, nil},
	{"PROP_DERIVATIVE_CONSTANT", uint32(btypes.PROP_DERIVATIVE_CONSTANT), 26, nil},
	{"PROP_DERIVATIVE_CONSTANT_Propertybtypes", uint32(btypes.PROP_DERIVATIVE_CONSTANT_Propertybtypes), 27, nil},
	{"PROP_DESCRIPTION", uint32(btypes.PROP_DESCRIPTION), 28, nil},
	{"PROP_DESCRIPTION_OF_HALT", uint32(btypes.PROP_DESCRIPTION_OF_HALT), 29, nil},
	{"PROP_DEVICE_ADDRESS_BINDING", uint32(btypes.PROP_DEVICE_ADDRESS_BINDING), 30, nil},
	{"PROP_DEVICE_TYPE", uint32(btypes.PROP_DEVICE_TYPE), 31, nil},
	{"PROP_EFFECTIVE_PERIOD", uint32(btypes.PROP_EFFECTIVE_PERIOD), 32, nil},
	{"PROP_ELAPSED_ACTIVE_TIME", uint32(btypes.PROP_ELAPSED_ACTIVE_TIME), 33, nil},
	{"PROP_ERROR_LIMIT", uint32(btypes.PROP_ERROR_LIMIT), 34, nil},
	{"PROP_EVENT_ENABLE", uint32(btypes.PROP_EVENT_ENABLE), 35, nil},
	{"PROP_EVENT_STATE", uint32(btypes.PROP_EVENT_STATE), 36, nil},
	{"PROP_EVENT_TYPE", uint32(btypes.PROP_EVENT_TYPE), 37, nil},
	{"PROP_EXCEPTION_SCHEDULE", uint32(btypes.PROP_EXCEPTION_SCHEDULE), 38, nil},
	{"PROP_FAULT_VALUES", uint32(btypes.PROP_FAULT_VALUES), 39, nil},
	{"PROP_FEEDBACK_VALUE", uint32(btypes.PROP_FEEDBACK_VALUE), 40, nil},
	{"PROP_FILE_ACCESS_METHOD", uint32(btypes.PROP_FILE_ACCESS_METHOD), 41, nil},
	{"PROP_FILE_SIZE", uint32(btypes.PROP_FILE_SIZE), 42, nil},
	{"PROP_FILE_TYPE", uint32(btypes.PROP_FILE_TYPE), 43, nil},
	{"PROP_FIRMWARE_REVISION", uint32(btypes.PROP_FIRMWARE_REVISION), 44, nil},
	{"PROP_HIGH_LIMIT", uint32(btypes.PROP_HIGH_LIMIT), 45, nil},
	{"PROP_INACTIVE_TEXT", uint32(btypes.PROP_INACTIVE_TEXT), 46, nil},
	{"PROP_IN_PROCESS", uint32(btypes.PROP_IN_PROCESS), 47, nil},
	{"PROP_INSTANCE_OF", uint32(btypes.PROP_INSTANCE_OF), 48, nil},
	{"PROP_INTEGRAL_CONSTANT", uint32(btypes.PROP_INTEGRAL_CONSTANT), 49, nil},
	{"PROP_INTEGRAL_CONSTANT_Propertybtypes", uint32(btypes.PROP_INTEGRAL_CONSTANT_Propertybtypes), 50, nil},
	{"PROP_ISSUE_CONFIRMED_NOTIFICATIONS", uint32(btypes.PROP_ISSUE_CONFIRMED_NOTIFICATIONS), 51, nil},
	{"PROP_LIMIT_ENABLE", uint32(btypes.PROP_LIMIT_ENABLE), 52, nil},
	{"PROP_LIST_OF_GROUP_MEMBERS", uint32(btypes.PROP_LIST_OF_GROUP_MEMBERS), 53, nil},
	{"PROP_LIST_OF_OBJECT_PROPERTY_REFERENCES", uint32(btypes.PROP_LIST_OF_OBJECT_PROPERTY_REFERENCES), 54, nil},
	{"PROP_LIST_OF_SESSION_KEYS", uint32(btypes.PROP_LIST_OF_SESSION_KEYS), 55, nil},
	{"PROP_LOCAL_DATE", uint32(btypes.PROP_LOCAL_DATE), 56, nil},
	{"PROP_LOCAL_TIME", uint32(btypes.PROP_LOCAL_TIME), 57, nil},
	{"PROP_LOCATION", uint32(btypes.PROP_LOCATION), 58, nil},
	{"PROP_LOW_LIMIT", uint32(btypes.PROP_LOW_LIMIT), 59, nil},
	{"PROP_MANIPULATED_VARIABLE_REFERENCE", uint32(btypes.PROP_MANIPULATED_VARIABLE_REFERENCE), 60, nil},
	{"PROP_MAXIMUM_OUTPUT", uint32(btypes.PROP_MAXIMUM_OUTPUT), 61, nil},
	{"PROP_MAX_INFO_FRAMES", uint32(btypes.PROP_MAX_INFO_FRAMES), 63, nil},
	{"PROP_MAX_MASTER", uint32(btypes.PROP_MAX_MASTER), 64, nil},
	{"PROP_MAX_PRES_VALUE", uint32(btypes.PROP_MAX_PRES_VALUE), 65, nil},
	{"PROP_MINIMUM_OFF_TIME", uint32(btypes.PROP_MINIMUM_OFF_TIME), 66, nil},
	{"PROP_MINIMUM_ON_TIME", uint32(btypes.PROP_MINIMUM_ON_TIME), 67, nil},
	{"PROP_MINIMUM_OUTPUT", uint32(btypes.PROP_MINIMUM_OUTPUT), 68, nil},
	{"PROP_MIN_PRES_VALUE", uint32(btypes.PROP_MIN_PRES_VALUE), 69, nil},
	{"PROP_MODEL_NAME", uint32(btypes.PROP_MODEL_NAME), 70, nil},
	{"PROP_MODIFICATION_DATE", uint32(btypes.PROP_MODIFICATION_DATE), 71, nil},
	{"PROP_NOTIFY_TYPE", uint32(btypes.PROP_NOTIFY_TYPE), 72, nil},
	{"PROP_NUMBER_OF_APDU_RETRIES", uint32(btypes.PROP_NUMBER_OF_APDU_RETRIES), 73, nil},
	{"PROP_NUMBER_OF_STATES", uint32(btypes.PROP_NUMBER_OF_STATES), 74, nil},
	{"PROP_OBJECT_IDENTIFIER", uint32(btypes.PROP_OBJECT_IDENTIFIER), 75, nil},
	{"PROP_OBJECT_LIST", uint32(btypes.PROP_OBJECT_LIST), 76, nil},
	{"PROP_OBJECT_NAME", uint32(btypes.PROP_OBJECT_NAME), 77, nil},
	{"PROP_OBJECT_PROPERTY_REFERENCE", uint32(btypes.PROP_OBJECT_PROPERTY_REFERENCE), 78, nil},
	{"PROP_OBJECT_TYPE", uint32(btypes.PROP_OBJECT_TYPE), 79, nil},
	{"PROP_OPTIONAL", uint32(btypes.PROP_OPTIONAL), 80, nil},
	{"PROP_OUT_OF_SERVICE", uint32(btypes.PROP_OUT_OF_SERVICE), 81, nil},
	{"PROP_OUTPUT_Propertybtypes", uint32(btypes.PROP_OUTPUT_Propertybtypes), 82, nil},
	{"PROP_EVENT_PARAMETERS", uint32(btypes.PROP_EVENT_PARAMETERS), 83, nil},
	{"PROP_POLARITY", uint32(btypes.PROP_POLARITY), 84, nil},
	{"PROP_PRESENT_VALUE", uint32(btypes.PROP_PRESENT_VALUE), 85, nil},
	{"PROP_PRIORITY", uint32(btypes.PROP_PRIORITY), 86, nil},
	{"PROP_PRIORITY_ARRAY", uint32(btypes.PROP_PRIORITY_ARRAY), 87, nil},
	{"PROP_PRIORITY_FOR_WRITING", uint32(btypes.PROP_PRIORITY_FOR_WRITING), 88, nil},
	{"PROP_PROCESS_IDENTIFIER", uint32(btypes.PROP_PROCESS_IDENTIFIER), 89, nil},
	{"PROP_PROGRAM_CHANGE", uint32(btypes.PROP_PROGRAM_CHANGE), 90, nil},
	{"PROP_PROGRAM_LOCATION", uint32(btypes.PROP_PROGRAM_LOCATION), 91, nil},
	{"PROP_PROGRAM_STATE", uint32(btypes.PROP_PROGRAM_STATE), 92, nil},
	{"PROP_PROPORTIONAL_CONSTANT", uint32(btypes.PROP_PROPORTIONAL_CONSTANT), 93, nil},
	{"PROP_PROPORTIONAL_CONSTANT_Propertybtypes", uint32(btypes.PROP_PROPORTIONAL_CONSTANT_Propertybtypes), 94, nil},
	{"PROP_PROTOCOL_CONFORMANCE_CLASS", uint32(btypes.PROP_PROTOCOL_CONFORMANCE_CLASS), 95, nil},
	{"PROP_PROTOCOL_VERSION", uint32(btypes.PROP_PROTOCOL_VERSION), 98, nil},
	{"PROP_READ_ONLY", uint32(btypes.PROP_READ_ONLY), 99, nil},
	{"PROP_REASON_FOR_HALT", uint32(btypes.PROP_REASON_FOR_HALT), 100, nil},
	{"PROP_RECIPIENT", uint32(btypes.PROP_RECIPIENT), 101, nil},
	{"PROP_RECIPIENT_LIST", uint32(btypes.PROP_RECIPIENT_LIST), 102, nil},
	{"PROP_RELIABILITY", uint32(btypes.PROP_RELIABILITY), 103, nil},
	{"PROP_RELINQUISH_DEFAULT", uint32(btypes.PROP_RELINQUISH_DEFAULT), 104, nil},
	{"PROP_REQUIRED", uint32(btypes.PROP_REQUIRED), 105, nil},
	{"PROP_RESOLUTION", uint32(btypes.PROP_RESOLUTION), 106, nil},
	{"PROP_SETPOINT", uint32(btypes.PROP_SETPOINT), 108, nil},
	{"PROP_SETPOINT_REFERENCE", uint32(btypes.PROP_SETPOINT_REFERENCE), 109, nil},
	{"PROP_STATE_TEXT", uint32(btypes.PROP_STATE_TEXT), 110, nil},
	{"PROP_STATUS_FLAGS", uint32(btypes.PROP_STATUS_FLAGS), 111, nil},
	{"PROP_SYSTEM_STATUS", uint32(btypes.PROP_SYSTEM_STATUS), 112, nil},
	{"PROP_TIME_DELAY", uint32(btypes.PROP_TIME_DELAY), 113, nil},
	{"PROP_TIME_OF_ACTIVE_TIME_RESET", uint32(btypes.PROP_TIME_OF_ACTIVE_TIME_RESET), 114, nil},
	{"PROP_TIME_OF_STATE_COUNT_RESET", uint32(btypes.PROP_TIME_OF_STATE_COUNT_RESET), 115, nil},
	{"PROP_TIME_SYNCHRONIZATION_RECIPIENTS", uint32(btypes.PROP_TIME_SYNCHRONIZATION_RECIPIENTS), 116, nil},
	{"PROP_Propertybtypes", uint32(btypes.PROP_Propertybtypes), 117, nil},
	{"PROP_UPDATE_INTERVAL", uint32(btypes.PROP_UPDATE_INTERVAL), 118, nil},
	{"PROP_UTC_OFFSET", uint32(btypes.PROP_UTC_OFFSET), 119, nil},
	{"PROP_VENDOR_IDENTIFIER", uint32(btypes.PROP_VENDOR_IDENTIFIER), 120, nil},
	{"PROP_VT_CLASSES_SUPPORTED", uint32(btypes.PROP_VT_CLASSES_SUPPORTED), 122, nil},
	{"PROP_WEEKLY_SCHEDULE", uint32(btypes.PROP_WEEKLY_SCHEDULE), 123, nil},
	{"PROP_ATTEMPTED_SAMPLES", uint32(btypes.PROP_ATTEMPTED_SAMPLES), 124, nil},
	{"PROP_AVERAGE_VALUE", uint32(btypes.PROP_AVERAGE_VALUE), 125, nil},
	{"PROP_BUFFER_SIZE", uint32(btypes.PROP_BUFFER_SIZE), 126, nil},
	{"PROP_CLIENT_COV_INCREMENT", uint32(btypes.PROP_CLIENT_COV_INCREMENT), 127, nil},
	{"PROP_COV_RESUBSCRIPTION_INTERVAL", uint32(btypes.PROP_COV_RESUBSCRIPTION_INTERVAL), 128, nil},
	{"PROP_CURRENT_NOTIFY_TIME", uint32(btypes.PROP_CURRENT_NOTIFY_TIME), 129, nil},
	{"PROP_EVENT_TIME_STAMPS", uint32(btypes.PROP_EVENT_TIME_STAMPS), 130, nil},
	{"PROP_LOG_BUFFER", uint32(btypes.PROP_LOG_BUFFER), 131, nil},
	{"PROP_LOG_DEVICE_OBJECT_PROPERTY", uint32(btypes.PROP_LOG_DEVICE_OBJECT_PROPERTY), 132, nil},
	{"PROP_ENABLE", uint32(btypes.PROP_ENABLE), 133, nil},
	{"PROP_LOG_INTERVAL", uint32(btypes.PROP_LOG_INTERVAL), 134, nil},
	{"PROP_MAXIMUM_VALUE", uint32(btypes.PROP_MAXIMUM_VALUE), 135, nil},
	{"PROP_MINIMUM_VALUE", uint32(btypes.PROP_MINIMUM_VALUE), 136, nil},
	{"PROP_NOTIFICATION_THRESHOLD", uint32(btypes.PROP_NOTIFICATION_THRESHOLD), 137, nil},
	{"PROP_PREVIOUS_NOTIFY_TIME", uint32(btypes.PROP_PREVIOUS_NOTIFY_TIME), 138, nil},
	{"PROP_PROTOCOL_REVISION", uint32(btypes.PROP_PROTOCOL_REVISION), 139, nil},
	{"PROP_RECORDS_SINCE_NOTIFICATION", uint32(btypes.PROP_RECORDS_SINCE_NOTIFICATION), 140, nil},
	{"PROP_RECORD_COUNT", uint32(btypes.PROP_RECORD_COUNT), 141, nil},
	{"PROP_START_TIME", uint32(btypes.PROP_START_TIME), 142, nil},
	{"PROP_STOP_TIME", uint32(btypes.PROP_STOP_TIME), 143, nil},
	{"PROP_STOP_WHEN_FULL", uint32(btypes.PROP_STOP_WHEN_FULL), 144, nil},
	{"PROP_TOTAL_RECORD_COUNT", uint32(btypes.PROP_TOTAL_RECORD_COUNT), 145, nil},
	{"PROP_VALID_SAMPLES", uint32(btypes.PROP_VALID_SAMPLES), 146, nil},
	{"PROP_WINDOW_INTERVAL", uint32(btypes.PROP_WINDOW_INTERVAL), 147, nil},
	{"PROP_WINDOW_SAMPLES", uint32(btypes.PROP_WINDOW_SAMPLES), 148, nil},
	{"PROP_MAXIMUM_VALUE_TIMESTAMP", uint32(btypes.PROP_MAXIMUM_VALUE_TIMESTAMP), 149, nil},
	{"PROP_MINIMUM_VALUE_TIMESTAMP", uint32(btypes.PROP_MINIMUM_VALUE_TIMESTAMP), 150, nil},
	{"PROP_VARIANCE_VALUE", uint32(btypes.PROP_VARIANCE_VALUE), 151, nil},
	{"PROP_ACTIVE_COV_SUBSCRIPTIONS", uint32(btypes.PROP_ACTIVE_COV_SUBSCRIPTIONS), 152, nil},
	{"PROP_BACKUP_FAILURE_TIMEOUT", uint32(btypes.PROP_BACKUP_FAILURE_TIMEOUT), 153, nil},
	{"PROP_CONFIGURATION_FILES", uint32(btypes.PROP_CONFIGURATION_FILES), 154, nil},
	{"PROP_DATABASE_REVISION", uint32(btypes.PROP_DATABASE_REVISION), 155, nil},
	{"PROP_DIRECT_READING", uint32(btypes.PROP_DIRECT_READING), 156, nil},
	{"PROP_LAST_RESTORE_TIME", uint32(btypes.PROP_LAST_RESTORE_TIME), 157, nil},
	{"PROP_MAINTENANCE_REQUIRED", uint32(btypes.PROP_MAINTENANCE_REQUIRED), 158, nil},
	{"PROP_MEMBER_OF", uint32(btypes.PROP_MEMBER_OF), 159, nil},
	{"PROP_MODE", uint32(btypes.PROP_MODE), 160, nil},
	{"PROP_OPERATION_EXPECTED", uint32(btypes.PROP_OPERATION_EXPECTED), 161, nil},
	{"PROP_SETTING", uint32(btypes.PROP_SETTING), 162, nil},
	{"PROP_SILENCED", uint32(btypes.PROP_SILENCED), 163, nil},
	{"PROP_TRACKING_VALUE", uint32(btypes.PROP_TRACKING_VALUE), 164, nil},
	{"PROP_ZONE_MEMBERS", uint32(btypes.PROP_ZONE_MEMBERS), 165, nil},
	{"PROP_LIFE_SAFETY_ALARM_VALUES", uint32(btypes.PROP_LIFE_SAFETY_ALARM_VALUES), 166, nil},
	{"PROP_MAX_SEGMENTS_ACCEPTED", uint32(btypes.PROP_MAX_SEGMENTS_ACCEPTED), 167, nil},
	{"PROP_PROFILE_NAME", uint32(btypes.PROP_PROFILE_NAME), 168, nil},
	{"PROP_AUTO_SLAVE_DISCOVERY", uint32(btypes.PROP_AUTO_SLAVE_DISCOVERY), 169, nil},
	{"PROP_MANUAL_SLAVE_ADDRESS_BINDING", uint32(btypes.PROP_MANUAL_SLAVE_ADDRESS_BINDING), 170, nil},
	{"PROP_SLAVE_ADDRESS_BINDING", uint32(btypes.PROP_SLAVE_ADDRESS_BINDING), 171, nil},
	{"PROP_SLAVE_PROXY_ENABLE", uint32(btypes.PROP_SLAVE_PROXY_ENABLE), 172, nil},
	{"PROP_LAST_NOTIFY_RECORD", uint32(btypes.PROP_LAST_NOTIFY_RECORD), 173, nil},
	{"PROP_SCHEDULE_DEFAULT", uint32(btypes.PROP_SCHEDULE_DEFAULT), 174, nil},
	{"PROP_ACCEPTED_MODES", uint32(btypes.PROP_ACCEPTED_MODES), 175, nil},
	{"PROP_ADJUST_VALUE", uint32(btypes.PROP_ADJUST_VALUE), 176, nil},
	{"PROP_COUNT", uint32(btypes.PROP_COUNT), 177, nil},
	{"PROP_COUNT_BEFORE_CHANGE", uint32(btypes.PROP_COUNT_BEFORE_CHANGE), 178, nil},
	{"PROP_COUNT_CHANGE_TIME", uint32(btypes.PROP_COUNT_CHANGE_TIME), 179, nil},
	{"PROP_COV_PERIOD", uint32(btypes.PROP_COV_PERIOD), 180, nil},
	{"PROP_INPUT_REFERENCE", uint32(btypes.PROP_INPUT_REFERENCE), 181, nil},
	{"PROP_LIMIT_MONITORING_INTERVAL", uint32(btypes.PROP_LIMIT_MONITORING_INTERVAL), 182, nil},
	{"PROP_LOGGING_OBJECT", uint32(btypes.PROP_LOGGING_OBJECT), 183, nil},
	{"PROP_LOGGING_RECORD", uint32(btypes.PROP_LOGGING_RECORD), 184, nil},
	{"PROP_PRESCALE", uint32(btypes.PROP_PRESCALE), 185, nil},
	{"PROP_PULSE_RATE", uint32(btypes.PROP_PULSE_RATE), 186, nil},
	{"PROP_SCALE", uint32(btypes.PROP_SCALE), 187, nil},
	{"PROP_SCALE_FACTOR", uint32(btypes.PROP_SCALE_FACTOR), 188, nil},
	{"PROP_UPDATE_TIME", uint32(btypes.PROP_UPDATE_TIME), 189, nil},
	{"PROP_VALUE_BEFORE_CHANGE", uint32(btypes.PROP_VALUE_BEFORE_CHANGE), 190, nil},
	{"PROP_VALUE_SET", uint32(btypes.PROP_VALUE_SET), 191, nil},
	{"PROP_VALUE_CHANGE_TIME", uint32(btypes.PROP_VALUE_CHANGE_TIME), 192, nil},
	{"PROP_ALIGN_INTERVALS", uint32(btypes.PROP_ALIGN_INTERVALS), 193, nil},
	{"PROP_INTERVAL_OFFSET", uint32(btypes.PROP_INTERVAL_OFFSET), 195, nil},
	{"PROP_LAST_RESTART_REASON", uint32(btypes.PROP_LAST_RESTART_REASON), 196, nil},
	{"PROP_LOGGING_TYPE", uint32(btypes.PROP_LOGGING_TYPE), 197, nil},
	{"PROP_RESTART_NOTIFICATION_RECIPIENTS", uint32(btypes.PROP_RESTART_NOTIFICATION_RECIPIENTS), 202, nil},
	{"PROP_TIME_OF_DEVICE_RESTART", uint32(btypes.PROP_TIME_OF_DEVICE_RESTART), 203, nil},
	{"PROP_TIME_SYNCHRONIZATION_INTERVAL", uint32(btypes.PROP_TIME_SYNCHRONIZATION_INTERVAL), 204, nil},
	{"PROP_TRIGGER", uint32(btypes.PROP_TRIGGER), 205, nil},
	{"PROP_UTC_TIME_SYNCHRONIZATION_RECIPIENTS", uint32(btypes.PROP_UTC_TIME_SYNCHRONIZATION_RECIPIENTS), 206, nil},
	{"PROP_NODE_SUBTYPE", uint32(btypes.PROP_NODE_SUBTYPE), 207, nil},
	{"PROP_NODE_TYPE", uint32(btypes.PROP_NODE_TYPE), 208, nil},
	{"PROP_STRUCTURED_OBJECT_LIST", uint32(btypes.PROP_STRUCTURED_OBJECT_LIST), 209, nil},
	{"PROP_SUBORDINATE_ANNOTATIONS", uint32(btypes.PROP_SUBORDINATE_ANNOTATIONS), 210, nil},
	{"PROP_SUBORDINATE_LIST", uint32(btypes.PROP_SUBORDINATE_LIST), 211, nil},
	{"PROP_ACTUAL_SHED_LEVEL", uint32(btypes.PROP_ACTUAL_SHED_LEVEL), 212, nil},
	{"PROP_DUTY_WINDOW", uint32(btypes.PROP_DUTY_WINDOW), 213, nil},
	{"PROP_EXPECTED_SHED_LEVEL", uint32(btypes.PROP_EXPECTED_SHED_LEVEL), 214, nil},
	{"PROP_FULL_DUTY_BASELINE", uint32(btypes.PROP_FULL_DUTY_BASELINE), 215, nil},
	{"PROP_REQUESTED_SHED_LEVEL", uint32(btypes.PROP_REQUESTED_SHED_LEVEL), 218, nil},
	{"PROP_SHED_DURATION", uint32(btypes.PROP_SHED_DURATION), 219, nil},
	{"PROP_SHED_LEVEL_DESCRIPTIONS", uint32(btypes.PROP_SHED_LEVEL_DESCRIPTIONS), 220, nil},
	{"PROP_SHED_LEVELS", uint32(btypes.PROP_SHED_LEVELS), 221, nil},
	{"PROP_STATE_DESCRIPTION", uint32(btypes.PROP_STATE_DESCRIPTION), 222, nil},
	{"PROP_DOOR_ALARM_STATE", uint32(btypes.PROP_DOOR_ALARM_STATE), 226, nil},
	{"PROP_DOOR_EXTENDED_PULSE_TIME", uint32(btypes.PROP_DOOR_EXTENDED_PULSE_TIME), 227, nil},
	{"PROP_DOOR_MEMBERS", uint32(btypes.PROP_DOOR_MEMBERS), 228, nil},
	{"PROP_DOOR_OPEN_TOO_LONG_TIME", uint32(btypes.PROP_DOOR_OPEN_TOO_LONG_TIME), 229, nil},
	{"PROP_DOOR_PULSE_TIME", uint32(btypes.PROP_DOOR_PULSE_TIME), 230, nil},
	{"PROP_DOOR_STATUS", uint32(btypes.PROP_DOOR_STATUS), 231, nil},
	{"PROP_DOOR_UNLOCK_DELAY_TIME", uint32(btypes.PROP_DOOR_UNLOCK_DELAY_TIME), 232, nil},
	{"PROP_LOCK_STATUS", uint32(btypes.PROP_LOCK_STATUS), 233, nil},
	{"PROP_MASKED_ALARM_VALUES", uint32(btypes.PROP_MASKED_ALARM_VALUES), 234, nil},
	{"PROP_SECURED_STATUS", uint32(btypes.PROP_SECURED_STATUS), 235, nil},
	{"PROP_ABSENTEE_LIMIT", uint32(btypes.PROP_ABSENTEE_LIMIT), 244, nil},
	{"PROP_ACCESS_ALARM_EVENTS", uint32(btypes.PROP_ACCESS_ALARM_EVENTS), 245, nil},
	{"PROP_ACCESS_DOORS", uint32(btypes.PROP_ACCESS_DOORS), 246, nil},
	{"PROP_ACCESS_EVENT", uint32(btypes.PROP_ACCESS_EVENT), 247, nil},
	{"PROP_ACCESS_EVENT_AUTHENTICATION_FACTOR", uint32(btypes.PROP_ACCESS_EVENT_AUTHENTICATION_FACTOR), 248, nil},
	{"PROP_ACCESS_EVENT_CREDENTIAL", uint32(btypes.PROP_ACCESS_EVENT_CREDENTIAL), 249, nil},
	{"PROP_ACCESS_EVENT_TIME", uint32(btypes.PROP_ACCESS_EVENT_TIME), 250, nil},
	{"PROP_ACCESS_TRANSACTION_EVENTS", uint32(btypes.PROP_ACCESS_TRANSACTION_EVENTS), 251, nil},
	{"PROP_ACCOMPANIMENT", uint32(btypes.PROP_ACCOMPANIMENT), 252, nil},
	{"PROP_ACCOMPANIMENT_TIME", uint32(btypes.PROP_ACCOMPANIMENT_TIME), 253, nil},
	{"PROP_ACTIVATION_TIME", uint32(btypes.PROP_ACTIVATION_TIME), 254, nil},
	{"PROP_ACTIVE_AUTHENTICATION_POLICY", uint32(btypes.PROP_ACTIVE_AUTHENTICATION_POLICY), 255, nil},
	{"PROP_ASSIGNED_ACCESS_RIGHTS", uint32(btypes.PROP_ASSIGNED_ACCESS_RIGHTS), 256, nil},
	{"PROP_AUTHENTICATION_FACTORS", uint32(btypes.PROP_AUTHENTICATION_FACTORS), 257, nil},
	{"PROP_AUTHENTICATION_POLICY_LIST", uint32(btypes.PROP_AUTHENTICATION_POLICY_LIST), 258, nil},
	{"PROP_AUTHENTICATION_POLICY_NAMES", uint32(btypes.PROP_AUTHENTICATION_POLICY_NAMES), 259, nil},
	{"PROP_AUTHENTICATION_STATUS", uint32(btypes.PROP_AUTHENTICATION_STATUS), 260, nil},
	{"PROP_AUTHORIZATION_MODE", uint32(btypes.PROP_AUTHORIZATION_MODE), 261, nil},
	{"PROP_BELONGS_TO", uint32(btypes.PROP_BELONGS_TO), 262, nil},
	{"PROP_CREDENTIAL_DISABLE", uint32(btypes.PROP_CREDENTIAL_DISABLE), 263, nil},
	{"PROP_CREDENTIAL_STATUS", uint32(btypes.PROP_CREDENTIAL_STATUS), 264, nil},
	{"PROP_CREDENTIALS", uint32(btypes.PROP_CREDENTIALS), 265, nil},
	{"PROP_CREDENTIALS_IN_ZONE", uint32(btypes.PROP_CREDENTIALS_IN_ZONE), 266, nil},
	{"PROP_DAYS_REMAINING", uint32(btypes.PROP_DAYS_REMAINING), 267, nil},
	{"PROP_ENTRY_POINTS", uint32(btypes.PROP_ENTRY_POINTS), 268, nil},
	{"PROP_EXIT_POINTS", uint32(btypes.PROP_EXIT_POINTS), 269, nil},
	{"PROP_EXPIRATION_TIME", uint32(btypes.PROP_EXPIRATION_TIME), 270, nil},
	{"PROP_EXTENDED_TIME_ENABLE", uint32(btypes.PROP_EXTENDED_TIME_ENABLE), 271, nil},
	{"PROP_FAILED_ATTEMPT_EVENTS", uint32(btypes.PROP_FAILED_ATTEMPT_EVENTS), 272, nil},
	{"PROP_FAILED_ATTEMPTS", uint32(btypes.PROP_FAILED_ATTEMPTS), 273, nil},
	{"PROP_FAILED_ATTEMPTS_TIME", uint32(btypes.PROP_FAILED_ATTEMPTS_TIME), 274, nil},
	{"PROP_LAST_ACCESS_EVENT", uint32(btypes.PROP_LAST_ACCESS_EVENT), 275, nil},
	{"PROP_LAST_ACCESS_POINT", uint32(btypes.PROP_LAST_ACCESS_POINT), 276, nil},
	{"PROP_LAST_CREDENTIAL_ADDED", uint32(btypes.PROP_LAST_CREDENTIAL_ADDED), 277, nil},
	{"PROP_LAST_CREDENTIAL_ADDED_TIME", uint32(btypes.PROP_LAST_CREDENTIAL_ADDED_TIME), 278, nil},
	{"PROP_LAST_CREDENTIAL_REMOVED", uint32(btypes.PROP_LAST_CREDENTIAL_REMOVED), 279, nil},
	{"PROP_LAST_CREDENTIAL_REMOVED_TIME", uint32(btypes.PROP_LAST_CREDENTIAL_REMOVED_TIME), 280, nil},
	{"PROP_LAST_USE_TIME", uint32(btypes.PROP_LAST_USE_TIME), 281, nil},
	{"PROP_LOCKOUT", uint32(btypes.PROP_LOCKOUT), 282, nil},
	{"PROP_LOCKOUT_RELINQUISH_TIME", uint32(btypes.PROP_LOCKOUT_RELINQUISH_TIME), 283, nil},
	{"PROP_MASTER_EXEMPTION", uint32(btypes.PROP_MASTER_EXEMPTION), 284, nil},
	{"PROP_MAX_FAILED_ATTEMPTS", uint32(btypes.PROP_MAX_FAILED_ATTEMPTS), 285, nil},
	{"PROP_MEMBERS", uint32(btypes.PROP_MEMBERS), 286, nil},
	{"PROP_MUSTER_POINT", uint32(btypes.PROP_MUSTER_POINT), 287, nil},
	{"PROP_NEGATIVE_ACCESS_RULES", uint32(btypes.PROP_NEGATIVE_ACCESS_RULES), 288, nil},
	{"PROP_NUMBER_OF_AUTHENTICATION_POLICIES", uint32(btypes.PROP_NUMBER_OF_AUTHENTICATION_POLICIES), 289, nil},
	{"PROP_OCCUPANCY_COUNT", uint32(btypes.PROP_OCCUPANCY_COUNT), 290, nil},
	{"PROP_OCCUPANCY_COUNT_ADJUST", uint32(btypes.PROP_OCCUPANCY_COUNT_ADJUST), 291, nil},
	{"PROP_OCCUPANCY_COUNT_ENABLE", uint32(btypes.PROP_OCCUPANCY_COUNT_ENABLE), 292, nil},
	{"PROP_OCCUPANCY_EXEMPTION", uint32(btypes.PROP_OCCUPANCY_EXEMPTION), 293, nil},
	{"PROP_OCCUPANCY_LOWER_LIMIT", uint32(btypes.PROP_OCCUPANCY_LOWER_LIMIT), 294, nil},
	{"PROP_OCCUPANCY_LOWER_LIMIT_ENFORCED", uint32(btypes.PROP_OCCUPANCY_LOWER_LIMIT_ENFORCED), 295, nil},
	{"PROP_OCCUPANCY_STATE", uint32(btypes.PROP_OCCUPANCY_STATE), 296, nil},
	{"PROP_OCCUPANCY_UPPER_LIMIT", uint32(btypes.PROP_OCCUPANCY_UPPER_LIMIT), 297, nil},
	{"PROP_OCCUPANCY_UPPER_LIMIT_ENFORCED", uint32(btypes.PROP_OCCUPANCY_UPPER_LIMIT_ENFORCED), 298, nil},
	{"PROP_PASSBACK_EXEMPTION", uint32(btypes.PROP_PASSBACK_EXEMPTION), 299, nil},
	{"PROP_PASSBACK_MODE", uint32(btypes.PROP_PASSBACK_MODE), 300, nil},
	{"PROP_PASSBACK_TIMEOUT", uint32(btypes.PROP_PASSBACK_TIMEOUT), 301, nil},
	{"PROP_POSITIVE_ACCESS_RULES", uint32(btypes.PROP_POSITIVE_ACCESS_RULES), 302, nil},
	{"PROP_REASON_FOR_DISABLE", uint32(btypes.PROP_REASON_FOR_DISABLE), 303, nil},
	{"PROP_SUPPORTED_FORMATS", uint32(btypes.PROP_SUPPORTED_FORMATS), 304, nil},
	{"PROP_SUPPORTED_FORMAT_CLASSES", uint32(btypes.PROP_SUPPORTED_FORMAT_CLASSES), 305, nil},
	{"PROP_THREAT_AUTHORITY", uint32(btypes.PROP_THREAT_AUTHORITY), 306, nil},
	{"PROP_THREAT_LEVEL", uint32(btypes.PROP_THREAT_LEVEL), 307, nil},
	{"PROP_TRACE_FLAG", uint32(btypes.PROP_TRACE_FLAG), 308, nil},
	{"PROP_TRANSACTION_NOTIFICATION_CLASS", uint32(btypes.PROP_TRANSACTION_NOTIFICATION_CLASS), 309, nil},
	{"PROP_USER_EXTERNAL_IDENTIFIER", uint32(btypes.PROP_USER_EXTERNAL_IDENTIFIER), 310, nil},
	{"PROP_USER_INFORMATION_REFERENCE", uint32(btypes.PROP_USER_INFORMATION_REFERENCE), 311, nil},
	{"PROP_USER_NAME", uint32(btypes.PROP_USER_NAME), 317, nil},
	{"PROP_USER_TYPE", uint32(btypes.PROP_USER_TYPE), 318, nil},
	{"PROP_USES_REMAINING", uint32(btypes.PROP_USES_REMAINING), 319, nil},
	{"PROP_ZONE_FROM", uint32(btypes.PROP_ZONE_FROM), 320, nil},
	{"PROP_ZONE_TO", uint32(btypes.PROP_ZONE_TO), 321, nil},
	{"PROP_ACCESS_EVENT_TAG", uint32(btypes.PROP_ACCESS_EVENT_TAG), 322, nil},
	{"PROP_GLOBAL_IDENTIFIER", uint32(btypes.PROP_GLOBAL_IDENTIFIER), 323, nil},
	{"PROP_VERIFICATION_TIME", uint32(btypes.PROP_VERIFICATION_TIME), 326, nil},
	{"PROP_BASE_DEVICE_SECURITY_POLICY", uint32(btypes.PROP_BASE_DEVICE_SECURITY_POLICY), 327, nil},
	{"PROP_DISTRIBUTION_KEY_REVISION", uint32(btypes.PROP_DISTRIBUTION_KEY_REVISION), 328, nil},
	{"PROP_DO_NOT_HIDE", uint32(btypes.PROP_DO_NOT_HIDE), 329, nil},
	{"PROP_KEY_SETS", uint32(btypes.PROP_KEY_SETS), 330, nil},
	{"PROP_LAST_KEY_SERVER", uint32(btypes.PROP_LAST_KEY_SERVER), 331, nil},
	{"PROP_NETWORK_ACCESS_SECURITY_POLICIES", uint32(btypes.PROP_NETWORK_ACCESS_SECURITY_POLICIES), 332, nil},
	{"PROP_PACKET_REORDER_TIME", uint32(btypes.PROP_PACKET_REORDER_TIME), 333, nil},
	{"PROP_SECURITY_PDU_TIMEOUT", uint32(btypes.PROP_SECURITY_PDU_TIMEOUT), 334, nil},
	{"PROP_SECURITY_TIME_WINDOW", uint32(btypes.PROP_SECURITY_TIME_WINDOW), 335, nil},
	{"PROP_SUPPORTED_SECURITY_ALGORITHM", uint32(btypes.PROP_SUPPORTED_SECURITY_ALGORITHM), 336, nil},
	{"PROP_UPDATE_KEY_SET_TIMEOUT", uint32(btypes.PROP_UPDATE_KEY_SET_TIMEOUT), 337, nil},
	{"PROP_BACKUP_AND_RESTORE_STATE", uint32(btypes.PROP_BACKUP_AND_RESTORE_STATE), 338, nil},
	{"PROP_BACKUP_PREPARATION_TIME", uint32(btypes.PROP_BACKUP_PREPARATION_TIME), 339, nil},
	{"PROP_RESTORE_COMPLETION_TIME", uint32(btypes.PROP_RESTORE_COMPLETION_TIME), 340, nil},
	{"PROP_RESTORE_PREPARATION_TIME", uint32(btypes.PROP_RESTORE_PREPARATION_TIME), 341, nil},
	{"PROP_BIT_MASK", uint32(btypes.PROP_BIT_MASK), 342, nil},
	{"PROP_BIT_TEXT", uint32(btypes.PROP_BIT_TEXT), 343, nil},
	{"PROP_IS_UTC", uint32(btypes.PROP_IS_UTC), 344, nil},
	{"PROP_GROUP_MEMBERS", uint32(btypes.PROP_GROUP_MEMBERS), 345, nil},
	{"PROP_GROUP_MEMBER_NAMES", uint32(btypes.PROP_GROUP_MEMBER_NAMES), 346, nil},
	{"PROP_MEMBER_STATUS_FLAGS", uint32(btypes.PROP_MEMBER_STATUS_FLAGS), 347, nil},
	{"PROP_REQUESTED_UPDATE_INTERVAL", uint32(btypes.PROP_REQUESTED_UPDATE_INTERVAL), 348, nil},
	{"PROP_COVU_PERIOD", uint32(btypes.PROP_COVU_PERIOD), 349, nil},
	{"PROP_COVU_RECIPIENTS", uint32(btypes.PROP_COVU_RECIPIENTS), 350, nil},
	{"PROP_EVENT_MESSAGE_TEXTS", uint32(btypes.PROP_EVENT_MESSAGE_TEXTS), 351, nil},
	{"PROP_EVENT_MESSAGE_TEXTS_CONFIG", uint32(btypes.PROP_EVENT_MESSAGE_TEXTS_CONFIG), 352, nil},
	{"PROP_EVENT_DETECTION_ENABLE", uint32(btypes.PROP_EVENT_DETECTION_ENABLE), 353, nil},
	{"PROP_EVENT_ALGORITHM_INHIBIT", uint32(btypes.PROP_EVENT_ALGORITHM_INHIBIT), 354, nil},
	{"PROP_EVENT_ALGORITHM_INHIBIT_REF", uint32(btypes.PROP_EVENT_ALGORITHM_INHIBIT_REF), 355, nil},
	{"PROP_TIME_DELAY_NORMAL", uint32(btypes.PROP_TIME_DELAY_NORMAL), 356, nil},
	{"PROP_RELIABILITY_EVALUATION_INHIBIT", uint32(btypes.PROP_RELIABILITY_EVALUATION_INHIBIT), 357, nil},
	{"PROP_FAULT_PARAMETERS", uint32(btypes.PROP_FAULT_PARAMETERS), 358, nil},
	{"PROP_FAULT_TYPE", uint32(btypes.PROP_FAULT_TYPE), 359, nil},
	{"PROP_LOCAL_FORWARDING_ONLY", uint32(btypes.PROP_LOCAL_FORWARDING_ONLY), 360, nil},
	{"PROP_PROCESS_IDENTIFIER_FILTER", uint32(btypes.PROP_PROCESS_IDENTIFIER_FILTER), 361, nil},
	{"PROP_SUBSCRIBED_RECIPIENTS", uint32(btypes.PROP_SUBSCRIBED_RECIPIENTS), 362, nil},
	{"PROP_PORT_FILTER", uint32(btypes.PROP_PORT_FILTER), 363, nil},
	{"PROP_AUTHORIZATION_EXEMPTIONS", uint32(btypes.PROP_AUTHORIZATION_EXEMPTIONS), 364, nil},
	{"PROP_ALLOW_GROUP_DELAY_INHIBIT", uint32(btypes.PROP_ALLOW_GROUP_DELAY_INHIBIT), 365, nil},
	{"PROP_CHANNEL_NUMBER", uint32(btypes.PROP_CHANNEL_NUMBER), 366, nil},
	{"PROP_CONTROL_GROUPS", uint32(btypes.PROP_CONTROL_GROUPS), 367, nil},
	{"PROP_EXECUTION_DELAY", uint32(btypes.PROP_EXECUTION_DELAY), 368, nil},
	{"PROP_LAST_PRIORITY", uint32(btypes.PROP_LAST_PRIORITY), 369, nil},
	{"PROP_WRITE_STATUS", uint32(btypes.PROP_WRITE_STATUS), 370, nil},
	{"PROP_PROPERTY_LIST", uint32(btypes.PROP_PROPERTY_LIST), 371, nil},
	{"PROP_SERIAL_NUMBER", uint32(btypes.PROP_SERIAL_NUMBER), 372, nil},
	{"PROP_BLINK_WARN_ENABLE", uint32(btypes.PROP_BLINK_WARN_ENABLE), 373, nil},
	{"PROP_DEFAULT_FADE_TIME", uint32(btypes.PROP_DEFAULT_FADE_TIME), 374, nil},
	{"PROP_DEFAULT_RAMP_RATE", uint32(btypes.PROP_DEFAULT_RAMP_RATE), 375, nil},
	{"PROP_DEFAULT_STEP_INCREMENT", uint32(btypes.PROP_DEFAULT_STEP_INCREMENT), 376, nil},
	{"PROP_EGRESS_TIME", uint32(btypes.PROP_EGRESS_TIME), 377, nil},
	{"PROP_IN_PROGRESS", uint32(btypes.PROP_IN_PROGRESS), 378, nil},
	{"PROP_INSTANTANEOUS_POWER", uint32(btypes.PROP_INSTANTANEOUS_POWER), 379, nil},
	{"PROP_LIGHTING_COMMAND", uint32(btypes.PROP_LIGHTING_COMMAND), 380, nil},
	{"PROP_LIGHTING_COMMAND_DEFAULT_PRIORITY", uint32(btypes.PROP_LIGHTING_COMMAND_DEFAULT_PRIORITY), 381, nil},
	{"PROP_MAX_ACTUAL_VALUE", uint32(btypes.PROP_MAX_ACTUAL_VALUE), 382, nil},
	{"PROP_MIN_ACTUAL_VALUE", uint32(btypes.PROP_MIN_ACTUAL_VALUE), 383, nil},
	{"PROP_POWER", uint32(btypes.PROP_POWER), 384, nil},
	{"PROP_TRANSITION", uint32(btypes.PROP_TRANSITION), 385, nil},
	{"PROP_EGRESS_ACTIVE", uint32(btypes.PROP_EGRESS_ACTIVE), 386, nil},
	{"PROP_INTERFACE_VALUE", uint32(btypes.PROP_INTERFACE_VALUE), 387, nil},
	{"PROP_FAULT_HIGH_LIMIT", uint32(btypes.PROP_FAULT_HIGH_LIMIT), 388, nil},
	{"PROP_FAULT_LOW_LIMIT", uint32(btypes.PROP_FAULT_LOW_LIMIT), 389, nil},
	{"PROP_LOW_DIFF_LIMIT", uint32(btypes.PROP_LOW_DIFF_LIMIT), 390, nil},
	{"PROP_STRIKE_COUNT", uint32(btypes.PROP_STRIKE_COUNT), 391, nil},
	{"PROP_TIME_OF_STRIKE_COUNT_RESET", uint32(btypes.PROP_TIME_OF_STRIKE_COUNT_RESET), 392, nil},
	{"PROP_DEFAULT_TIMEOUT", uint32(btypes.PROP_DEFAULT_TIMEOUT), 393, nil},
	{"PROP_INITIAL_TIMEOUT", uint32(btypes.PROP_INITIAL_TIMEOUT), 394, nil},
	{"PROP_LAST_STATE_CHANGE", uint32(btypes.PROP_LAST_STATE_CHANGE), 395, nil},
	{"PROP_STATE_CHANGE_VALUES", uint32(btypes.PROP_STATE_CHANGE_VALUES), 396, nil},
	{"PROP_TIMER_RUNNING", uint32(btypes.PROP_TIMER_RUNNING), 397, nil},
	{"PROP_TIMER_STATE", uint32(btypes.PROP_TIMER_STATE), 398, nil},
	{"PROP_APDU_LENGTH", uint32(btypes.PROP_APDU_LENGTH), 399, nil},
	{"PROP_IP_ADDRESS", uint32(btypes.PROP_IP_ADDRESS), 400, nil},
	{"PROP_IP_DEFAULT_GATEWAY", uint32(btypes.PROP_IP_DEFAULT_GATEWAY), 401, nil},
	{"PROP_IP_DHCP_ENABLE", uint32(btypes.PROP_IP_DHCP_ENABLE), 402, nil},
	{"PROP_IP_DHCP_LEASE_TIME", uint32(btypes.PROP_IP_DHCP_LEASE_TIME), 403, nil},
	{"PROP_IP_DHCP_LEASE_TIME_REMAINING", uint32(btypes.PROP_IP_DHCP_LEASE_TIME_REMAINING), 404, nil},
	{"PROP_IP_DHCP_SERVER", uint32(btypes.PROP_IP_DHCP_SERVER), 405, nil},
	{"PROP_IP_DNS_SERVER", uint32(btypes.PROP_IP_DNS_SERVER), 406, nil},
	{"PROP_BACNET_IP_GLOBAL_ADDRESS", uint32(btypes.PROP_BACNET_IP_GLOBAL_ADDRESS), 407, nil},
	{"PROP_BACNET_IP_MODE", uint32(btypes.PROP_BACNET_IP_MODE), 408, nil},
	{"PROP_BACNET_IP_MULTICAST_ADDRESS", uint32(btypes.PROP_BACNET_IP_MULTICAST_ADDRESS), 409, nil},
	{"PROP_BACNET_IP_NAT_TRAVERSAL", uint32(btypes.PROP_BACNET_IP_NAT_TRAVERSAL), 410, nil},
	{"PROP_IP_SUBNET_MASK", uint32(btypes.PROP_IP_SUBNET_MASK), 411, nil},
	{"PROP_BACNET_IP_UDP_PORT", uint32(btypes.PROP_BACNET_IP_UDP_PORT), 412, nil},
	{"PROP_BBMD_ACCEPT_FD_REGISTRATIONS", uint32(btypes.PROP_BBMD_ACCEPT_FD_REGISTRATIONS), 413, nil},
	{"PROP_BBMD_BROADCAST_DISTRIBUTION_TABLE", uint32(btypes.PROP_BBMD_BROADCAST_DISTRIBUTION_TABLE), 414, nil},
	{"PROP_BBMD_FOREIGN_DEVICE_TABLE", uint32(btypes.PROP_BBMD_FOREIGN_DEVICE_TABLE), 415, nil},
	{"PROP_CHANGES_PENDING", uint32(btypes.PROP_CHANGES_PENDING), 416, nil},
	{"PROP_COMMAND", uint32(btypes.PROP_COMMAND), 417, nil},
	{"PROP_FD_BBMD_ADDRESS", uint32(btypes.PROP_FD_BBMD_ADDRESS), 418, nil},
	{"PROP_FD_SUBSCRIPTION_LIFETIME", uint32(btypes.PROP_FD_SUBSCRIPTION_LIFETIME), 419, nil},
	{"PROP_LINK_SPEED", uint32(btypes.PROP_LINK_SPEED), 420, nil},
	{"PROP_LINK_SPEEDS", uint32(btypes.PROP_LINK_SPEEDS), 421, nil},
	{"PROP_LINK_SPEED_AUTONEGOTIATE", uint32(btypes.PROP_LINK_SPEED_AUTONEGOTIATE), 422, nil},
	{"PROP_MAC_ADDRESS", uint32(btypes.PROP_MAC_ADDRESS), 423, nil},
	{"PROP_NETWORK_INTERFACE_NAME", uint32(btypes.PROP_NETWORK_INTERFACE_NAME), 424, nil},
	{"PROP_NETWORK_NUMBER", uint32(btypes.PROP_NETWORK_NUMBER), 425, nil},
	{"PROP_NETWORK_NUMBER_QUALITY", uint32(btypes.PROP_NETWORK_NUMBER_QUALITY), 426, nil},
	{"PROP_NETWORK_TYPE", uint32(btypes.PROP_NETWORK_TYPE), 427, nil},
	{"PROP_ROUTING_TABLE", uint32(btypes.PROP_ROUTING_TABLE), 428, nil},
	{"PROP_VIRTUAL_MAC_ADDRESS_TABLE", uint32(btypes.PROP_VIRTUAL_MAC_ADDRESS_TABLE), 429, nil},
	{"PROP_COMMAND_TIME_ARRAY", uint32(btypes.PROP_COMMAND_TIME_ARRAY), 430, nil},
	{"PROP_CURRENT_COMMAND_PRIORITY", uint32(btypes.PROP_CURRENT_COMMAND_PRIORITY), 431, nil},
	{"PROP_LAST_COMMAND_TIME", uint32(btypes.PROP_LAST_COMMAND_TIME), 432, nil},
	{"PROP_VALUE_SOURCE", uint32(btypes.PROP_VALUE_SOURCE), 433, nil},
	{"PROP_VALUE_SOURCE_ARRAY", uint32(btypes.PROP_VALUE_SOURCE_ARRAY), 434, nil},
	{"PROP_BACNET_IPV6_MODE", uint32(btypes.PROP_BACNET_IPV6_MODE), 435, nil},
	{"PROP_IPV6_ADDRESS", uint32(btypes.PROP_IPV6_ADDRESS), 436, nil},
	{"PROP_IPV6_PREFIX_LENGTH", uint32(btypes.PROP_IPV6_PREFIX_LENGTH), 437, nil},
	{"PROP_BACNET_IPV6_UDP_PORT", uint32(btypes.PROP_BACNET_IPV6_UDP_PORT), 438, nil},
	{"PROP_IPV6_DEFAULT_GATEWAY", uint32(btypes.PROP_IPV6_DEFAULT_GATEWAY), 439, nil},
	{"PROP_BACNET_IPV6_MULTICAST_ADDRESS", uint32(btypes.PROP_BACNET_IPV6_MULTICAST_ADDRESS), 440, nil},
	{"PROP_IPV6_DNS_SERVER", uint32(btypes.PROP_IPV6_DNS_SERVER), 441, nil},
	{"PROP_IPV6_AUTO_ADDRESSING_ENABLE", uint32(btypes.PROP_IPV6_AUTO_ADDRESSING_ENABLE), 442, nil},
	{"PROP_IPV6_DHCP_LEASE_TIME", uint32(btypes.PROP_IPV6_DHCP_LEASE_TIME), 443, nil},
	{"PROP_IPV6_DHCP_LEASE_TIME_REMAINING", uint32(btypes.PROP_IPV6_DHCP_LEASE_TIME_REMAINING), 444, nil},
	{"PROP_IPV6_DHCP_SERVER", uint32(btypes.PROP_IPV6_DHCP_SERVER), 445, nil},
	{"PROP_IPV6_ZONE_INDEX", uint32(btypes.PROP_IPV6_ZONE_INDEX), 446, nil},
	{"PROP_ASSIGNED_LANDING_CALLS", uint32(btypes.PROP_ASSIGNED_LANDING_CALLS), 447, nil},
	{"PROP_CAR_ASSIGNED_DIRECTION", uint32(btypes.PROP_CAR_ASSIGNED_DIRECTION), 448, nil},
	{"PROP_CAR_DOOR_COMMAND", uint32(btypes.PROP_CAR_DOOR_COMMAND), 449, nil},
	{"PROP_CAR_DOOR_STATUS", uint32(btypes.PROP_CAR_DOOR_STATUS), 450, nil},
	{"PROP_CAR_DOOR_TEXT", uint32(btypes.PROP_CAR_DOOR_TEXT), 451, nil},
	{"PROP_CAR_DOOR_ZONE", uint32(btypes.PROP_CAR_DOOR_ZONE), 452, nil},
	{"PROP_CAR_DRIVE_STATUS", uint32(btypes.PROP_CAR_DRIVE_STATUS), 453, nil},
	{"PROP_CAR_LOAD", uint32(btypes.PROP_CAR_LOAD), 454, nil},
	{"PROP_CAR_LOAD_Propertybtypes", uint32(btypes.PROP_CAR_LOAD_Propertybtypes), 455, nil},
	{"PROP_CAR_MODE", uint32(btypes.PROP_CAR_MODE), 456, nil},
	{"PROP_CAR_MOVING_DIRECTION", uint32(btypes.PROP_CAR_MOVING_DIRECTION), 457, nil},
	{"PROP_CAR_POSITION", uint32(btypes.PROP_CAR_POSITION), 458, nil},
	{"PROP_ELEVATOR_GROUP", uint32(btypes.PROP_ELEVATOR_GROUP), 459, nil},
	{"PROP_ENERGY_METER", uint32(btypes.PROP_ENERGY_METER), 460, nil},
	{"PROP_ENERGY_METER_REF", uint32(btypes.PROP_ENERGY_METER_REF), 461, nil},
	{"PROP_ESCALATOR_MODE", uint32(btypes.PROP_ESCALATOR_MODE), 462, nil},
	{"PROP_FAULT_SIGNALS", uint32(btypes.PROP_FAULT_SIGNALS), 463, nil},
	{"PROP_FLOOR_TEXT", uint32(btypes.PROP_FLOOR_TEXT), 464, nil},
	{"PROP_GROUP_ID", uint32(btypes.PROP_GROUP_ID), 465, nil},
	{"PROP_GROUP_MODE", uint32(btypes.PROP_GROUP_MODE), 467, nil},
	{"PROP_HIGHER_DECK", uint32(btypes.PROP_HIGHER_DECK), 468, nil},
	{"PROP_INSTALLATION_ID", uint32(btypes.PROP_INSTALLATION_ID), 469, nil},
	{"PROP_LANDING_CALLS", uint32(btypes.PROP_LANDING_CALLS), 470, nil},
	{"PROP_LANDING_CALL_CONTROL", uint32(btypes.PROP_LANDING_CALL_CONTROL), 471, nil},
	{"PROP_LANDING_DOOR_STATUS", uint32(btypes.PROP_LANDING_DOOR_STATUS), 472, nil},
	{"PROP_LOWER_DECK", uint32(btypes.PROP_LOWER_DECK), 473, nil},
	{"PROP_MACHINE_ROOM_ID", uint32(btypes.PROP_MACHINE_ROOM_ID), 474, nil},
	{"PROP_MAKING_CAR_CALL", uint32(btypes.PROP_MAKING_CAR_CALL), 475, nil},
	{"PROP_NEXT_STOPPING_FLOOR", uint32(btypes.PROP_NEXT_STOPPING_FLOOR), 476, nil},
	{"PROP_OPERATION_DIRECTION", uint32(btypes.PROP_OPERATION_DIRECTION), 477, nil},
	{"PROP_PASSENGER_ALARM", uint32(btypes.PROP_PASSENGER_ALARM), 478, nil},
	{"PROP_POWER_MODE", uint32(btypes.PROP_POWER_MODE), 479, nil},
	{"PROP_REGISTERED_CAR_CALL", uint32(btypes.PROP_REGISTERED_CAR_CALL), 480, nil},
	{"PROP_ACTIVE_COV_MULTIPLE_SUBSCRIPTIONS", uint32(btypes.PROP_ACTIVE_COV_MULTIPLE_SUBSCRIPTIONS), 481, nil},
	{"PROP_PROTOCOL_LEVEL", uint32(btypes.PROP_PROTOCOL_LEVEL), 482, nil},
	{"PROP_REFERENCE_PORT", uint32(btypes.PROP_REFERENCE_PORT), 483, nil},
	{"PROP_DEPLOYED_PROFILE_LOCATION", uint32(btypes.PROP_DEPLOYED_PROFILE_LOCATION), 484, nil},
	{"PROP_PROFILE_LOCATION", uint32(btypes.PROP_PROFILE_LOCATION), 485, nil},
	{"PROP_TAGS", uint32(btypes.PROP_TAGS), 486, nil},
	{"PROP_SUBORDINATE_NODE_btypes", uint32(btypes.PROP_SUBORDINATE_NODE_btypes), 487, nil},
	{"PROP_SUBORDINATE_TAGS", uint32(btypes.PROP_SUBORDINATE_TAGS), 488, nil},
	{"PROP_SUBORDINATE_RELATIONSHIPS", uint32(btypes.PROP_SUBORDINATE_RELATIONSHIPS), 489, nil},
	{"PROP_DEFAULT_SUBORDINATE_RELATIONSHIP", uint32(btypes.PROP_DEFAULT_SUBORDINATE_RELATIONSHIP), 490, nil},
	{"PROP_REPRESENTS", uint32(btypes.PROP_REPRESENTS), 491, nil},
	{"MAX_BACNET_PROPERTY_ID", uint32(btypes.MAX_BACNET_PROPERTY_ID), 4194303, nil},
}
