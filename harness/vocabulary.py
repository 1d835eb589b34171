"""The words of OpenADR 2.0b, as its schema (and, for device classes, its specification) lists them"""
EVENT_STATUS = ('active cancelled completed far near none').split()
SIGNAL_TYPE = ('delta level multiplier price priceMultiplier priceRelative setpoint x-loadControlCapacity x-loadControlLevelOffset x-loadControlPercentOffset '
    'x-loadControlSetpoint').split()
SIGNAL_NAME = ('BID_ENERGY BID_LOAD BID_PRICE CHARGE_STATE DEMAND_CHARGE ELECTRICITY_PRICE ENERGY_PRICE LOAD_CONTROL LOAD_DISPATCH SIMPLE simple').split()
SI_SCALE_CODE = ('G M T c d k m micro n none p').split()
OPT = ('optIn optOut').split()
OPT_REASON = ('economic emergency mustRun notParticipating outageRunStatus overrideStatus participating x-schedule').split()
READING_TYPE = ['Allocated', 'Contract', 'Derived', 'Direct Read', 'Estimated', 'Hybrid', 'Mean', 'Net', 'Peak', 'Projected', 'Summed', 'x-notApplicable',
    'x-RMS']
REPORT_TYPE = ('availableEnergyStorage avgDemand avgUsage baseline deltaDemand deltaSetPoint deltaUsage demand deviation downRegulationCapacityAvailable level '
    'operatingState percentDemand percentUsage powerFactor price reading regulationSetpoint setPoint storedEnergy targetEnergyStorage '
    'upRegulationCapacityAvailable usage x-resourceStatus').split()
REPORT_NAME = ('HISTORY_GREENBUTTON HISTORY_USAGE METADATA_HISTORY_GREENBUTTON METADATA_HISTORY_USAGE METADATA_TELEMETRY_STATUS METADATA_TELEMETRY_USAGE '
    'TELEMETRY_STATUS TELEMETRY_USAGE').split()
SIGNAL_TARGET_MRID = ('Baseboard_Heater Electric_Vehicle Energy_Management_System EVSE Exterior_Lighting Generation_Systems Hot_tub Interior_Lighting Irrigation_Pump '
    'Load_Control_Switch Managed_Commercial_and_Industrial_Loads Pool_Pump RESU Sauna Simple_Residential_On_Off_Loads Smart_Appliance Smart_Energy_Module '
    'Smart_Inverter Storage Strip_Heater Thermostat Water_Heater').split()
CURRENCIES = ('AED AFN ALL AMD ANG AOA ARS AUD AWG AZN BAM BBD BDT BGN BHD BIF BMD BND BOB BOV BRL BSD BTN BWP BYR BZD CAD CDF CHE CHF CHW CLF CLP CNY COP COU CRC '
    'CUC CUP CVE CZK DJF DKK DOP DZD EEK EGP ERN ETB EUR FJD FKP GBP GEL GHS GIP GMD GNF GTQ GWP GYD HKD HNL HRK HTG HUF IDR ILS INR IQD IRR ISK JMD JOD '
    'JPY KES KGS KHR KMF KPW KRW KWD KYD KZT LAK LBP LKR LRD LSL LTL LVL LYD MAD MDL MGA MKD MMK MNT MOP MRO MUR MVR MWK MXN MXV MYR MZN NAD NGN NIO NOK '
    'NPR NZD OMR PAB PEN PGK PHP PKR PLN PYG QAR RON RSD RUB RWF SAR SBD SCR SDG SEK SGD SHP SLL SOS SRD STD SVC SYP SZL THB TJS TMT TND TOP TRY TTD TWD '
    'TZS UAH UGX USD USN USS UYI UYU UZS VEF VND VUV WST XAF XAG XAU XBA XBB XBC XBD XCD XDR XFU XOF XPD XPF XPT XTS XXX YER ZAR ZMK ZWL').split()

# name of a measurement -> (its namespace, its description, its units)
ITEMS = {
    'currency': ('oadr', 'currency', CURRENCIES),
    'currencyPerKW': ('oadr', 'currencyPerKW', CURRENCIES),
    'currencyPerKWh': ('oadr', 'currencyPerKWh', CURRENCIES),
    'currencyPerThm': ('oadr', 'currency', CURRENCIES),
    'current': ('oadr', 'Current', ['A']),
    'energyApparent': ('power', 'ApparentEnergy', ['VAh']),
    'energyReactive': ('power', 'ReactiveEnergy', ['VARh']),
    'energyReal': ('power', 'RealEnergy', ['Wh']),
    'frequency': ('oadr', 'Frequency', ['Hz']),
    'powerApparent': ('power', 'ApparentPower', ['VA']),
    'powerReactive': ('power', 'ReactivePower', ['VAR']),
    'powerReal': ('power', 'RealPower', ['W', 'J/s']),
    'pulseCount': ('oadr', 'pulse count', ['count']),
    'temperature': ('oadr', 'temperature', ['celsius', 'fahrenheit']),
    'Therm': ('oadr', 'Therm', ['thm']),
    'voltage': ('power', 'Voltage', ['V']),
    'customUnit': ('oadr', None, None),
}

# the predefined measurements: name -> (name of the item, its default unit)
PREDEFINED = {
    'ACTIVE_ENERGY': ('energyReal', 'Wh'),
    'ACTIVE_POWER': ('powerReal', 'W'),
    'APPARENT_ENERGY': ('energyApparent', 'VAh'),
    'APPARENT_POWER': ('powerApparent', 'VA'),
    'CURRENCY': ('currency', 'AFN'),
    'CURRENCY_PER_KW': ('currencyPerKW', 'AFN'),
    'CURRENCY_PER_KWH': ('currencyPerKWh', 'AFN'),
    'CURRENCY_PER_THM': ('currencyPerThm', 'AFN'),
    'CURRENT': ('current', 'A'),
    'ENERGY_APPARENT': ('energyApparent', 'VAh'),
    'ENERGY_REACTIVE': ('energyReactive', 'VARh'),
    'ENERGY_REAL': ('energyReal', 'Wh'),
    'FREQUENCY': ('frequency', 'Hz'),
    'POWER_APPARENT': ('powerApparent', 'VA'),
    'POWER_REACTIVE': ('powerReactive', 'VAR'),
    'POWER_REAL': ('powerReal', 'W'),
    'PULSE_COUNT': ('pulseCount', 'count'),
    'REACTIVE_ENERGY': ('energyReactive', 'VARh'),
    'REACTIVE_POWER': ('powerReactive', 'VAR'),
    'REAL_ENERGY': ('energyReal', 'Wh'),
    'REAL_POWER': ('powerReal', 'W'),
    'TEMPERATURE': ('temperature', 'celsius'),
    'THERM': ('Therm', 'thm'),
    'VOLTAGE': ('voltage', 'V'),
}


class Item:
    """a predefined measurement"""
    def __init__(self, key):
        self.name, self.unit = PREDEFINED[key]
        self.ns, self.description, self.acceptable_units = ITEMS[self.name]
        self.power_attributes = {'hertz': 50, 'voltage': 230, 'ac': True} if self.name.startswith('power') else None
        self.pulse_factor = 1000 if self.name == 'pulseCount' else None


MEASUREMENTS = {key: Item(key) for key in PREDEFINED}
